// generated by tools/gen_p35.py: query expressions and their reference evaluation
#include "P35_common.hpp"
namespace vp {
void go() {
    expr_p<0, ((Col(&T::a) + 3) == db::param<int32_t>)>("col+lit3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(r.a), I(3)), I(p)); });
    expr_p<6, (((Col(&T::a) + 2) + 3) == db::param<int32_t>)>("(col+2)+3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(add(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<12, (((Col(&T::a) + 2) - 3) == db::param<int32_t>)>("(col+2)-3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(add(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<18, (((Col(&T::a) + 2) * 3) == db::param<int32_t>)>("(col+2)*3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(add(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<24, (((Col(&T::a) + 2) / 3) == db::param<int32_t>)>("(col+2)/3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(add(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<30, (((Col(&T::a) + 2) % 3) == db::param<int32_t>)>("(col+2)%3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(add(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<36, ((Col(&T::a) - 3) == db::param<int32_t>)>("col-lit3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(r.a), I(3)), I(p)); });
    expr_p<42, (((Col(&T::a) - 2) + 3) == db::param<int32_t>)>("(col-2)+3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(sub(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<48, (((Col(&T::a) - 2) - 3) == db::param<int32_t>)>("(col-2)-3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(sub(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<54, (((Col(&T::a) - 2) * 3) == db::param<int32_t>)>("(col-2)*3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(sub(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<60, (((Col(&T::a) - 2) / 3) == db::param<int32_t>)>("(col-2)/3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(sub(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<66, (((Col(&T::a) - 2) % 3) == db::param<int32_t>)>("(col-2)%3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(sub(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<72, ((Col(&T::a) * 3) == db::param<int32_t>)>("col*lit3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(r.a), I(3)), I(p)); });
    expr_p<78, (((Col(&T::a) * 2) + 3) == db::param<int32_t>)>("(col*2)+3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(mul(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<84, (((Col(&T::a) * 2) - 3) == db::param<int32_t>)>("(col*2)-3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(mul(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<90, (((Col(&T::a) * 2) * 3) == db::param<int32_t>)>("(col*2)*3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(mul(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<96, (((Col(&T::a) * 2) / 3) == db::param<int32_t>)>("(col*2)/3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(mul(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<102, (((Col(&T::a) * 2) % 3) == db::param<int32_t>)>("(col*2)%3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(mul(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<108, ((Col(&T::a) / 3) == db::param<int32_t>)>("col/lit3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(r.a), I(3)), I(p)); });
    expr_p<114, (((Col(&T::a) / 2) + 3) == db::param<int32_t>)>("(col/2)+3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(div(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<120, (((Col(&T::a) / 2) - 3) == db::param<int32_t>)>("(col/2)-3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(div(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<126, (((Col(&T::a) / 2) * 3) == db::param<int32_t>)>("(col/2)*3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(div(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<132, (((Col(&T::a) / 2) / 3) == db::param<int32_t>)>("(col/2)/3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(div(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<138, (((Col(&T::a) / 2) % 3) == db::param<int32_t>)>("(col/2)%3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(div(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<144, ((Col(&T::a) % 3) == db::param<int32_t>)>("col%lit3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(r.a), I(3)), I(p)); });
    expr_p<150, (((Col(&T::a) % 2) + 3) == db::param<int32_t>)>("(col%2)+3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(mod(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<156, (((Col(&T::a) % 2) - 3) == db::param<int32_t>)>("(col%2)-3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(mod(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<162, (((Col(&T::a) % 2) * 3) == db::param<int32_t>)>("(col%2)*3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(mod(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<168, (((Col(&T::a) % 2) / 3) == db::param<int32_t>)>("(col%2)/3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(mod(I(r.a), I(2)), I(3)), I(p)); });
    expr_p<174, (((Col(&T::a) % 2) % 3) == db::param<int32_t>)>("(col%2)%3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(mod(I(r.a), I(2)), I(3)), I(p)); });
    expr_n<180, ((Col(&T::a) - 1) == Col(&T::b))>("cmp:cal==col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(r.a), I(1)), I(r.b)); });
    expr_n<186, (Col(&T::a) == Col(&T::b))>("cmp:col==col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(I(r.a), I(r.b)); });
    expr_n<192, (Col(&T::a) == 2)>("cmp:col==2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(I(r.a), I(2)); });
    expr_n<198, (""_fs == Col(&T::s))>("str:0==col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("") == r.s); });
    expr_n<204, ("''"_fs == Col(&T::s))>("str:3==col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("''") == r.s); });
    expr_n<210, (Col(&T::a) != Col(&T::b))>("cmp:col!=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ne(I(r.a), I(r.b)); });
    expr_n<216, (Col(&T::a) != 2)>("cmp:col!=2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ne(I(r.a), I(2)); });
    expr_n<222, (""_fs != Col(&T::s))>("str:0!=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("") != r.s); });
    expr_n<228, ("''"_fs != Col(&T::s))>("str:3!=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("''") != r.s); });
    expr_n<234, (Col(&T::a) < Col(&T::b))>("cmp:col<col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return lt(I(r.a), I(r.b)); });
    expr_n<240, (Col(&T::a) < 2)>("cmp:col<2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return lt(I(r.a), I(2)); });
    expr_n<246, (""_fs < Col(&T::s))>("str:0<col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("") < r.s); });
    expr_n<252, ("''"_fs < Col(&T::s))>("str:3<col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("''") < r.s); });
    expr_n<258, (Col(&T::a) <= Col(&T::b))>("cmp:col<=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return le(I(r.a), I(r.b)); });
    expr_n<264, (Col(&T::a) <= 2)>("cmp:col<=2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return le(I(r.a), I(2)); });
    expr_n<270, (""_fs <= Col(&T::s))>("str:0<=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("") <= r.s); });
    expr_n<276, ("''"_fs <= Col(&T::s))>("str:3<=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("''") <= r.s); });
    expr_n<282, (Col(&T::a) > Col(&T::b))>("cmp:col>col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return gt(I(r.a), I(r.b)); });
    expr_n<288, (Col(&T::a) > 2)>("cmp:col>2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return gt(I(r.a), I(2)); });
    expr_n<294, (""_fs > Col(&T::s))>("str:0>col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("") > r.s); });
    expr_n<300, ("''"_fs > Col(&T::s))>("str:3>col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("''") > r.s); });
    expr_n<306, (Col(&T::a) >= Col(&T::b))>("cmp:col>=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ge(I(r.a), I(r.b)); });
    expr_n<312, (Col(&T::a) >= 2)>("cmp:col>=2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ge(I(r.a), I(2)); });
    expr_n<318, (""_fs >= Col(&T::s))>("str:0>=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("") >= r.s); });
    expr_n<324, ("''"_fs >= Col(&T::s))>("str:3>=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("''") >= r.s); });
    expr_n<330, (Col(&T::a).in<2>())>("in:1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.a == 2); });
    expr_n<336, (Col(&T::s).in<"b"_fs, "it's"_fs>())>("in:str", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s == "b" || r.s == "it's"); });
    expr_n<342, (!Col(&T::a))>("not", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.a == 0); });
    expr_n<348, ((Col(&T::x) == 1) && (((1 == Col(&T::y))) || (!Col(&T::z))))>("log:0&&(1||2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), orr(B(r.y == 1), B(r.z == 0))); });
    expr_n<354, ((Col(&T::x) == 1) || (((1 == Col(&T::y))) && (Col(&T::w).in<1, 5>())))>("log:0||(1&&3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), andd(B(r.y == 1), B(r.w == 1))); });
    expr_n<360, ((Col(&T::x) == 1) || ((!Col(&T::z)) || ((1 == Col(&T::y)))))>("log:0||(2||1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), orr(B(r.z == 0), B(r.y == 1))); });
    expr_n<366, ((Col(&T::x) == 1) && ((!Col(&T::z)) && ((1 == Col(&T::y)))))>("log:0&&(2&&1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), andd(B(r.z == 0), B(r.y == 1))); });
    expr_n<372, ((Col(&T::x) == 1) && ((!Col(&T::z)) || (Col(&T::w).in<1, 5>())))>("log:0&&(2||3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), orr(B(r.z == 0), B(r.w == 1))); });
    expr_n<378, ((Col(&T::x) == 1) || ((Col(&T::w).in<1, 5>()) && ((1 == Col(&T::y)))))>("log:0||(3&&1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), andd(B(r.w == 1), B(r.y == 1))); });
    expr_n<384, ((Col(&T::x) == 1) || ((Col(&T::w).in<1, 5>()) || (!Col(&T::z))))>("log:0||(3||2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), orr(B(r.w == 1), B(r.z == 0))); });
    expr_n<390, ((Col(&T::x) == 1) && ((Col(&T::w).in<1, 5>()) && (!Col(&T::z))))>("log:0&&(3&&2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), andd(B(r.w == 1), B(r.z == 0))); });
    expr_n<396, (((1 == Col(&T::y))) && ((Col(&T::x) == 1) || (!Col(&T::z))))>("log:1&&(0||2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.y == 1), orr(B(r.x == 1), B(r.z == 0))); });
    expr_n<402, (((1 == Col(&T::y))) || ((Col(&T::x) == 1) && (Col(&T::w).in<1, 5>())))>("log:1||(0&&3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.y == 1), andd(B(r.x == 1), B(r.w == 1))); });
    expr_n<408, (((1 == Col(&T::y))) || ((!Col(&T::z)) || (Col(&T::x) == 1)))>("log:1||(2||0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.y == 1), orr(B(r.z == 0), B(r.x == 1))); });
    expr_n<414, (((1 == Col(&T::y))) && ((!Col(&T::z)) && (Col(&T::x) == 1)))>("log:1&&(2&&0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.y == 1), andd(B(r.z == 0), B(r.x == 1))); });
    expr_n<420, (((1 == Col(&T::y))) && ((!Col(&T::z)) || (Col(&T::w).in<1, 5>())))>("log:1&&(2||3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.y == 1), orr(B(r.z == 0), B(r.w == 1))); });
    expr_n<426, (((1 == Col(&T::y))) || ((Col(&T::w).in<1, 5>()) && (Col(&T::x) == 1)))>("log:1||(3&&0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.y == 1), andd(B(r.w == 1), B(r.x == 1))); });
    expr_n<432, (((1 == Col(&T::y))) || ((Col(&T::w).in<1, 5>()) || (!Col(&T::z))))>("log:1||(3||2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.y == 1), orr(B(r.w == 1), B(r.z == 0))); });
    expr_n<438, (((1 == Col(&T::y))) && ((Col(&T::w).in<1, 5>()) && (!Col(&T::z))))>("log:1&&(3&&2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.y == 1), andd(B(r.w == 1), B(r.z == 0))); });
    expr_n<444, ((!Col(&T::z)) && ((Col(&T::x) == 1) || ((1 == Col(&T::y)))))>("log:2&&(0||1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.z == 0), orr(B(r.x == 1), B(r.y == 1))); });
    expr_n<450, ((!Col(&T::z)) || ((Col(&T::x) == 1) && (Col(&T::w).in<1, 5>())))>("log:2||(0&&3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.z == 0), andd(B(r.x == 1), B(r.w == 1))); });
    expr_n<456, ((!Col(&T::z)) || (((1 == Col(&T::y))) || (Col(&T::x) == 1)))>("log:2||(1||0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.z == 0), orr(B(r.y == 1), B(r.x == 1))); });
    expr_n<462, ((!Col(&T::z)) && (((1 == Col(&T::y))) && (Col(&T::x) == 1)))>("log:2&&(1&&0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.z == 0), andd(B(r.y == 1), B(r.x == 1))); });
    expr_n<468, ((!Col(&T::z)) && (((1 == Col(&T::y))) || (Col(&T::w).in<1, 5>())))>("log:2&&(1||3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.z == 0), orr(B(r.y == 1), B(r.w == 1))); });
    expr_n<474, ((!Col(&T::z)) || ((Col(&T::w).in<1, 5>()) && (Col(&T::x) == 1)))>("log:2||(3&&0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.z == 0), andd(B(r.w == 1), B(r.x == 1))); });
    expr_n<480, ((!Col(&T::z)) || ((Col(&T::w).in<1, 5>()) || ((1 == Col(&T::y)))))>("log:2||(3||1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.z == 0), orr(B(r.w == 1), B(r.y == 1))); });
    expr_n<486, ((!Col(&T::z)) && ((Col(&T::w).in<1, 5>()) && ((1 == Col(&T::y)))))>("log:2&&(3&&1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.z == 0), andd(B(r.w == 1), B(r.y == 1))); });
    expr_n<492, ((Col(&T::w).in<1, 5>()) && ((Col(&T::x) == 1) || ((1 == Col(&T::y)))))>("log:3&&(0||1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.w == 1), orr(B(r.x == 1), B(r.y == 1))); });
    expr_n<498, ((Col(&T::w).in<1, 5>()) || ((Col(&T::x) == 1) && (!Col(&T::z))))>("log:3||(0&&2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.w == 1), andd(B(r.x == 1), B(r.z == 0))); });
    expr_n<504, ((Col(&T::w).in<1, 5>()) || (((1 == Col(&T::y))) || (Col(&T::x) == 1)))>("log:3||(1||0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.w == 1), orr(B(r.y == 1), B(r.x == 1))); });
    expr_n<510, ((Col(&T::w).in<1, 5>()) && (((1 == Col(&T::y))) && (Col(&T::x) == 1)))>("log:3&&(1&&0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.w == 1), andd(B(r.y == 1), B(r.x == 1))); });
    expr_n<516, ((Col(&T::w).in<1, 5>()) && (((1 == Col(&T::y))) || (!Col(&T::z))))>("log:3&&(1||2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.w == 1), orr(B(r.y == 1), B(r.z == 0))); });
    expr_n<522, ((Col(&T::w).in<1, 5>()) || ((!Col(&T::z)) && (Col(&T::x) == 1)))>("log:3||(2&&0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.w == 1), andd(B(r.z == 0), B(r.x == 1))); });
    expr_n<528, ((Col(&T::w).in<1, 5>()) || ((!Col(&T::z)) || ((1 == Col(&T::y)))))>("log:3||(2||1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.w == 1), orr(B(r.z == 0), B(r.y == 1))); });
    expr_n<534, ((Col(&T::w).in<1, 5>()) && ((!Col(&T::z)) && ((1 == Col(&T::y)))))>("log:3&&(2&&1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.w == 1), andd(B(r.z == 0), B(r.y == 1))); });
    expr_n<540, ((((Col(&T::x) == 1) || ((1 == Col(&T::y)))) || (!Col(&T::z))) && (Col(&T::w).in<1, 5>()))>("log4:((p||q)||s)&&t", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(orr(B(r.x == 1), B(r.y == 1)), B(r.z == 0)), B(r.w == 1)); });
    expr_n<546, ((((Col(&T::x) == 1) || ((1 == Col(&T::y)))) && (!Col(&T::z))) && (Col(&T::w).in<1, 5>()))>("log4:((p||q)&&s)&&t", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(orr(B(r.x == 1), B(r.y == 1)), B(r.z == 0)), B(r.w == 1)); });
    expr_n<552, ((((Col(&T::x) == 1) && ((1 == Col(&T::y)))) || (!Col(&T::z))) && (Col(&T::w).in<1, 5>()))>("log4:((p&&q)||s)&&t", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(andd(B(r.x == 1), B(r.y == 1)), B(r.z == 0)), B(r.w == 1)); });
    expr_n<558, ((((Col(&T::x) == 1) && ((1 == Col(&T::y)))) && (!Col(&T::z))) && (Col(&T::w).in<1, 5>()))>("log4:((p&&q)&&s)&&t", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(andd(B(r.x == 1), B(r.y == 1)), B(r.z == 0)), B(r.w == 1)); });
    expr_pq<564, ((Col(&T::a) > db::param<int32_t>) && ((Col(&T::b) < db::param<int32_t>) || (4 - Col(&T::b) == 1)))>("mix2:&&||", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(gt(I(r.a), I(p)), orr(lt(I(r.b), I(q)), eq(sub(I(4), I(r.b)), I(1)))); });
    queries();
}
} // namespace vp
void mc_main() { vp::go(); }
