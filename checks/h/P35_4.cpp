// generated by tools/gen_p35.py: query expressions and their reference evaluation
#include "P35_common.hpp"
namespace vp {
void go() {
    expr_n<4, (Col(&T::a) + Col(&T::b))>("truth:col+col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return add(I(r.a), I(r.b)); });
    expr_n<10, ((Col(&T::a) + 2) + Col(&T::b))>("truth:(col+2)+col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return add(add(I(r.a), I(2)), I(r.b)); });
    expr_n<16, ((Col(&T::a) + 2) - Col(&T::b))>("truth:(col+2)-col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return sub(add(I(r.a), I(2)), I(r.b)); });
    expr_n<22, ((Col(&T::a) + 2) * Col(&T::b))>("truth:(col+2)*col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mul(add(I(r.a), I(2)), I(r.b)); });
    expr_n<28, ((Col(&T::a) + 2) / Col(&T::b))>("truth:(col+2)/col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return div(add(I(r.a), I(2)), I(r.b)); });
    expr_n<34, ((Col(&T::a) + 2) % Col(&T::b))>("truth:(col+2)%col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mod(add(I(r.a), I(2)), I(r.b)); });
    expr_n<40, (Col(&T::a) - Col(&T::b))>("truth:col-col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return sub(I(r.a), I(r.b)); });
    expr_n<46, ((Col(&T::a) - 2) + Col(&T::b))>("truth:(col-2)+col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return add(sub(I(r.a), I(2)), I(r.b)); });
    expr_n<52, ((Col(&T::a) - 2) - Col(&T::b))>("truth:(col-2)-col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return sub(sub(I(r.a), I(2)), I(r.b)); });
    expr_n<58, ((Col(&T::a) - 2) * Col(&T::b))>("truth:(col-2)*col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mul(sub(I(r.a), I(2)), I(r.b)); });
    expr_n<64, ((Col(&T::a) - 2) / Col(&T::b))>("truth:(col-2)/col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return div(sub(I(r.a), I(2)), I(r.b)); });
    expr_n<70, ((Col(&T::a) - 2) % Col(&T::b))>("truth:(col-2)%col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mod(sub(I(r.a), I(2)), I(r.b)); });
    expr_n<76, (Col(&T::a) * Col(&T::b))>("truth:col*col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mul(I(r.a), I(r.b)); });
    expr_n<82, ((Col(&T::a) * 2) + Col(&T::b))>("truth:(col*2)+col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return add(mul(I(r.a), I(2)), I(r.b)); });
    expr_n<88, ((Col(&T::a) * 2) - Col(&T::b))>("truth:(col*2)-col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return sub(mul(I(r.a), I(2)), I(r.b)); });
    expr_n<94, ((Col(&T::a) * 2) * Col(&T::b))>("truth:(col*2)*col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mul(mul(I(r.a), I(2)), I(r.b)); });
    expr_n<100, ((Col(&T::a) * 2) / Col(&T::b))>("truth:(col*2)/col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return div(mul(I(r.a), I(2)), I(r.b)); });
    expr_n<106, ((Col(&T::a) * 2) % Col(&T::b))>("truth:(col*2)%col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mod(mul(I(r.a), I(2)), I(r.b)); });
    expr_n<112, (Col(&T::a) / Col(&T::b))>("truth:col/col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return div(I(r.a), I(r.b)); });
    expr_n<118, ((Col(&T::a) / 2) + Col(&T::b))>("truth:(col/2)+col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return add(div(I(r.a), I(2)), I(r.b)); });
    expr_n<124, ((Col(&T::a) / 2) - Col(&T::b))>("truth:(col/2)-col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return sub(div(I(r.a), I(2)), I(r.b)); });
    expr_n<130, ((Col(&T::a) / 2) * Col(&T::b))>("truth:(col/2)*col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mul(div(I(r.a), I(2)), I(r.b)); });
    expr_n<136, ((Col(&T::a) / 2) / Col(&T::b))>("truth:(col/2)/col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return div(div(I(r.a), I(2)), I(r.b)); });
    expr_n<142, ((Col(&T::a) / 2) % Col(&T::b))>("truth:(col/2)%col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mod(div(I(r.a), I(2)), I(r.b)); });
    expr_n<148, (Col(&T::a) % Col(&T::b))>("truth:col%col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mod(I(r.a), I(r.b)); });
    expr_n<154, ((Col(&T::a) % 2) + Col(&T::b))>("truth:(col%2)+col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return add(mod(I(r.a), I(2)), I(r.b)); });
    expr_n<160, ((Col(&T::a) % 2) - Col(&T::b))>("truth:(col%2)-col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return sub(mod(I(r.a), I(2)), I(r.b)); });
    expr_n<166, ((Col(&T::a) % 2) * Col(&T::b))>("truth:(col%2)*col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mul(mod(I(r.a), I(2)), I(r.b)); });
    expr_n<172, ((Col(&T::a) % 2) / Col(&T::b))>("truth:(col%2)/col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return div(mod(I(r.a), I(2)), I(r.b)); });
    expr_n<178, ((Col(&T::a) % 2) % Col(&T::b))>("truth:(col%2)%col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mod(mod(I(r.a), I(2)), I(r.b)); });
    expr_n<184, (Col(&T::a) != (Col(&T::b) * 2))>("cmp:col!=cal", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ne(I(r.a), mul(I(r.b), I(2))); });
    expr_n<190, (Col(&T::a) == 0)>("cmp:col==0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(I(r.a), I(0)); });
    expr_n<196, (Col(&T::id) == int64_t(3))>("cmp:long==", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.id == 3); });
    expr_n<202, ("it's"_fs == Col(&T::s))>("str:2==col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("it's") == r.s); });
    expr_n<208, ("?'); --"_fs == Col(&T::s))>("str:5==col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("?'); --") == r.s); });
    expr_n<214, (Col(&T::a) != 0)>("cmp:col!=0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ne(I(r.a), I(0)); });
    expr_n<220, (Col(&T::id) != int64_t(3))>("cmp:long!=", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.id != 3); });
    expr_n<226, ("it's"_fs != Col(&T::s))>("str:2!=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("it's") != r.s); });
    expr_n<232, ("?'); --"_fs != Col(&T::s))>("str:5!=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("?'); --") != r.s); });
    expr_n<238, (Col(&T::a) < 0)>("cmp:col<0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return lt(I(r.a), I(0)); });
    expr_n<244, (Col(&T::id) < int64_t(3))>("cmp:long<", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.id < 3); });
    expr_n<250, ("it's"_fs < Col(&T::s))>("str:2<col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("it's") < r.s); });
    expr_n<256, ("?'); --"_fs < Col(&T::s))>("str:5<col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("?'); --") < r.s); });
    expr_n<262, (Col(&T::a) <= 0)>("cmp:col<=0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return le(I(r.a), I(0)); });
    expr_n<268, (Col(&T::id) <= int64_t(3))>("cmp:long<=", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.id <= 3); });
    expr_n<274, ("it's"_fs <= Col(&T::s))>("str:2<=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("it's") <= r.s); });
    expr_n<280, ("?'); --"_fs <= Col(&T::s))>("str:5<=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("?'); --") <= r.s); });
    expr_n<286, (Col(&T::a) > 0)>("cmp:col>0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return gt(I(r.a), I(0)); });
    expr_n<292, (Col(&T::id) > int64_t(3))>("cmp:long>", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.id > 3); });
    expr_n<298, ("it's"_fs > Col(&T::s))>("str:2>col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("it's") > r.s); });
    expr_n<304, ("?'); --"_fs > Col(&T::s))>("str:5>col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("?'); --") > r.s); });
    expr_n<310, (Col(&T::a) >= 0)>("cmp:col>=0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ge(I(r.a), I(0)); });
    expr_n<316, (Col(&T::id) >= int64_t(3))>("cmp:long>=", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.id >= 3); });
    expr_n<322, ("it's"_fs >= Col(&T::s))>("str:2>=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("it's") >= r.s); });
    expr_n<328, ("?'); --"_fs >= Col(&T::s))>("str:5>=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("?'); --") >= r.s); });
    expr_n<334, (Col(&T::a).in<7, Col(&T::b)>())>("in:col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.a == 7 || r.a == r.b); });
    expr_n<340, (Col(&T::s).like<"it'%">())>("like:q", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s.rfind("it'", 0) == 0); });
    expr_n<346, ((Col(&T::x) == 1) || (((1 == Col(&T::y))) && (!Col(&T::z))))>("log:0||(1&&2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), andd(B(r.y == 1), B(r.z == 0))); });
    expr_n<352, ((Col(&T::x) == 1) || (((1 == Col(&T::y))) || (Col(&T::w).in<1, 5>())))>("log:0||(1||3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), orr(B(r.y == 1), B(r.w == 1))); });
    expr_n<358, ((Col(&T::x) == 1) && (((1 == Col(&T::y))) && (Col(&T::w).in<1, 5>())))>("log:0&&(1&&3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), andd(B(r.y == 1), B(r.w == 1))); });
    expr_n<364, ((Col(&T::x) == 1) && ((!Col(&T::z)) || ((1 == Col(&T::y)))))>("log:0&&(2||1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), orr(B(r.z == 0), B(r.y == 1))); });
    expr_n<370, ((Col(&T::x) == 1) || ((!Col(&T::z)) && (Col(&T::w).in<1, 5>())))>("log:0||(2&&3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), andd(B(r.z == 0), B(r.w == 1))); });
    expr_n<376, ((Col(&T::x) == 1) || ((Col(&T::w).in<1, 5>()) || ((1 == Col(&T::y)))))>("log:0||(3||1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), orr(B(r.w == 1), B(r.y == 1))); });
    expr_n<382, ((Col(&T::x) == 1) && ((Col(&T::w).in<1, 5>()) && ((1 == Col(&T::y)))))>("log:0&&(3&&1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), andd(B(r.w == 1), B(r.y == 1))); });
    expr_n<388, ((Col(&T::x) == 1) && ((Col(&T::w).in<1, 5>()) || (!Col(&T::z))))>("log:0&&(3||2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), orr(B(r.w == 1), B(r.z == 0))); });
    expr_n<394, (((1 == Col(&T::y))) || ((Col(&T::x) == 1) && (!Col(&T::z))))>("log:1||(0&&2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.y == 1), andd(B(r.x == 1), B(r.z == 0))); });
    expr_n<400, (((1 == Col(&T::y))) || ((Col(&T::x) == 1) || (Col(&T::w).in<1, 5>())))>("log:1||(0||3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.y == 1), orr(B(r.x == 1), B(r.w == 1))); });
    expr_n<406, (((1 == Col(&T::y))) && ((Col(&T::x) == 1) && (Col(&T::w).in<1, 5>())))>("log:1&&(0&&3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.y == 1), andd(B(r.x == 1), B(r.w == 1))); });
    expr_n<412, (((1 == Col(&T::y))) && ((!Col(&T::z)) || (Col(&T::x) == 1)))>("log:1&&(2||0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.y == 1), orr(B(r.z == 0), B(r.x == 1))); });
    expr_n<418, (((1 == Col(&T::y))) || ((!Col(&T::z)) && (Col(&T::w).in<1, 5>())))>("log:1||(2&&3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.y == 1), andd(B(r.z == 0), B(r.w == 1))); });
    expr_n<424, (((1 == Col(&T::y))) || ((Col(&T::w).in<1, 5>()) || (Col(&T::x) == 1)))>("log:1||(3||0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.y == 1), orr(B(r.w == 1), B(r.x == 1))); });
    expr_n<430, (((1 == Col(&T::y))) && ((Col(&T::w).in<1, 5>()) && (Col(&T::x) == 1)))>("log:1&&(3&&0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.y == 1), andd(B(r.w == 1), B(r.x == 1))); });
    expr_n<436, (((1 == Col(&T::y))) && ((Col(&T::w).in<1, 5>()) || (!Col(&T::z))))>("log:1&&(3||2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.y == 1), orr(B(r.w == 1), B(r.z == 0))); });
    expr_n<442, ((!Col(&T::z)) || ((Col(&T::x) == 1) && ((1 == Col(&T::y)))))>("log:2||(0&&1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.z == 0), andd(B(r.x == 1), B(r.y == 1))); });
    expr_n<448, ((!Col(&T::z)) || ((Col(&T::x) == 1) || (Col(&T::w).in<1, 5>())))>("log:2||(0||3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.z == 0), orr(B(r.x == 1), B(r.w == 1))); });
    expr_n<454, ((!Col(&T::z)) && ((Col(&T::x) == 1) && (Col(&T::w).in<1, 5>())))>("log:2&&(0&&3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.z == 0), andd(B(r.x == 1), B(r.w == 1))); });
    expr_n<460, ((!Col(&T::z)) && (((1 == Col(&T::y))) || (Col(&T::x) == 1)))>("log:2&&(1||0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.z == 0), orr(B(r.y == 1), B(r.x == 1))); });
    expr_n<466, ((!Col(&T::z)) || (((1 == Col(&T::y))) && (Col(&T::w).in<1, 5>())))>("log:2||(1&&3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.z == 0), andd(B(r.y == 1), B(r.w == 1))); });
    expr_n<472, ((!Col(&T::z)) || ((Col(&T::w).in<1, 5>()) || (Col(&T::x) == 1)))>("log:2||(3||0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.z == 0), orr(B(r.w == 1), B(r.x == 1))); });
    expr_n<478, ((!Col(&T::z)) && ((Col(&T::w).in<1, 5>()) && (Col(&T::x) == 1)))>("log:2&&(3&&0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.z == 0), andd(B(r.w == 1), B(r.x == 1))); });
    expr_n<484, ((!Col(&T::z)) && ((Col(&T::w).in<1, 5>()) || ((1 == Col(&T::y)))))>("log:2&&(3||1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.z == 0), orr(B(r.w == 1), B(r.y == 1))); });
    expr_n<490, ((Col(&T::w).in<1, 5>()) || ((Col(&T::x) == 1) && ((1 == Col(&T::y)))))>("log:3||(0&&1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.w == 1), andd(B(r.x == 1), B(r.y == 1))); });
    expr_n<496, ((Col(&T::w).in<1, 5>()) || ((Col(&T::x) == 1) || (!Col(&T::z))))>("log:3||(0||2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.w == 1), orr(B(r.x == 1), B(r.z == 0))); });
    expr_n<502, ((Col(&T::w).in<1, 5>()) && ((Col(&T::x) == 1) && (!Col(&T::z))))>("log:3&&(0&&2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.w == 1), andd(B(r.x == 1), B(r.z == 0))); });
    expr_n<508, ((Col(&T::w).in<1, 5>()) && (((1 == Col(&T::y))) || (Col(&T::x) == 1)))>("log:3&&(1||0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.w == 1), orr(B(r.y == 1), B(r.x == 1))); });
    expr_n<514, ((Col(&T::w).in<1, 5>()) || (((1 == Col(&T::y))) && (!Col(&T::z))))>("log:3||(1&&2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.w == 1), andd(B(r.y == 1), B(r.z == 0))); });
    expr_n<520, ((Col(&T::w).in<1, 5>()) || ((!Col(&T::z)) || (Col(&T::x) == 1)))>("log:3||(2||0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.w == 1), orr(B(r.z == 0), B(r.x == 1))); });
    expr_n<526, ((Col(&T::w).in<1, 5>()) && ((!Col(&T::z)) && (Col(&T::x) == 1)))>("log:3&&(2&&0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.w == 1), andd(B(r.z == 0), B(r.x == 1))); });
    expr_n<532, ((Col(&T::w).in<1, 5>()) && ((!Col(&T::z)) || ((1 == Col(&T::y)))))>("log:3&&(2||1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.w == 1), orr(B(r.z == 0), B(r.y == 1))); });
    expr_n<538, (((Col(&T::x) == 1) || ((1 == Col(&T::y)))) || ((!Col(&T::z)) && (Col(&T::w).in<1, 5>())))>("log4:(p||q)||(s&&t)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.x == 1), B(r.y == 1)), andd(B(r.z == 0), B(r.w == 1))); });
    expr_n<544, (((Col(&T::x) == 1) || ((1 == Col(&T::y)))) && ((!Col(&T::z)) && (Col(&T::w).in<1, 5>())))>("log4:(p||q)&&(s&&t)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.x == 1), B(r.y == 1)), andd(B(r.z == 0), B(r.w == 1))); });
    expr_n<550, (((Col(&T::x) == 1) && ((1 == Col(&T::y)))) || ((!Col(&T::z)) && (Col(&T::w).in<1, 5>())))>("log4:(p&&q)||(s&&t)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.x == 1), B(r.y == 1)), andd(B(r.z == 0), B(r.w == 1))); });
    expr_n<556, (((Col(&T::x) == 1) && ((1 == Col(&T::y)))) && ((!Col(&T::z)) && (Col(&T::w).in<1, 5>())))>("log4:(p&&q)&&(s&&t)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.x == 1), B(r.y == 1)), andd(B(r.z == 0), B(r.w == 1))); });
    expr_pq<562, ((Col(&T::a) > db::param<int32_t>) || ((Col(&T::b) < db::param<int32_t>) && (4 - Col(&T::b) == 1)))>("mix2:||&&", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(gt(I(r.a), I(p)), andd(lt(I(r.b), I(q)), eq(sub(I(4), I(r.b)), I(1)))); });
}
} // namespace vp
void mc_main() { vp::go(); }
