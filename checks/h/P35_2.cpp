// generated by tools/gen_p35.py: query expressions and their reference evaluation
#include "P35_common.hpp"
namespace vp {
void go() {
    expr_p<2, ((Col(&T::a) + (-2)) == db::param<int32_t>)>("col+lit-2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(r.a), I(-2)), I(p)); });
    expr_p<8, (((5 + Col(&T::b)) + 3) == db::param<int32_t>)>("(5+col)+3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(add(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<14, (((5 + Col(&T::b)) - 3) == db::param<int32_t>)>("(5+col)-3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(add(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<20, (((5 + Col(&T::b)) * 3) == db::param<int32_t>)>("(5+col)*3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(add(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<26, (((5 + Col(&T::b)) / 3) == db::param<int32_t>)>("(5+col)/3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(add(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<32, (((5 + Col(&T::b)) % 3) == db::param<int32_t>)>("(5+col)%3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(add(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<38, ((Col(&T::a) - (-2)) == db::param<int32_t>)>("col-lit-2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(r.a), I(-2)), I(p)); });
    expr_p<44, (((5 - Col(&T::b)) + 3) == db::param<int32_t>)>("(5-col)+3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(sub(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<50, (((5 - Col(&T::b)) - 3) == db::param<int32_t>)>("(5-col)-3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(sub(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<56, (((5 - Col(&T::b)) * 3) == db::param<int32_t>)>("(5-col)*3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(sub(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<62, (((5 - Col(&T::b)) / 3) == db::param<int32_t>)>("(5-col)/3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(sub(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<68, (((5 - Col(&T::b)) % 3) == db::param<int32_t>)>("(5-col)%3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(sub(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<74, ((Col(&T::a) * (-2)) == db::param<int32_t>)>("col*lit-2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(r.a), I(-2)), I(p)); });
    expr_p<80, (((5 * Col(&T::b)) + 3) == db::param<int32_t>)>("(5*col)+3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(mul(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<86, (((5 * Col(&T::b)) - 3) == db::param<int32_t>)>("(5*col)-3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(mul(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<92, (((5 * Col(&T::b)) * 3) == db::param<int32_t>)>("(5*col)*3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(mul(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<98, (((5 * Col(&T::b)) / 3) == db::param<int32_t>)>("(5*col)/3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(mul(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<104, (((5 * Col(&T::b)) % 3) == db::param<int32_t>)>("(5*col)%3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(mul(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<110, ((Col(&T::a) / (-2)) == db::param<int32_t>)>("col/lit-2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(r.a), I(-2)), I(p)); });
    expr_p<116, (((5 / Col(&T::b)) + 3) == db::param<int32_t>)>("(5/col)+3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(div(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<122, (((5 / Col(&T::b)) - 3) == db::param<int32_t>)>("(5/col)-3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(div(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<128, (((5 / Col(&T::b)) * 3) == db::param<int32_t>)>("(5/col)*3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(div(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<134, (((5 / Col(&T::b)) / 3) == db::param<int32_t>)>("(5/col)/3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(div(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<140, (((5 / Col(&T::b)) % 3) == db::param<int32_t>)>("(5/col)%3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(div(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<146, ((Col(&T::a) % (-2)) == db::param<int32_t>)>("col%lit-2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(r.a), I(-2)), I(p)); });
    expr_p<152, (((5 % Col(&T::b)) + 3) == db::param<int32_t>)>("(5%col)+3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(mod(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<158, (((5 % Col(&T::b)) - 3) == db::param<int32_t>)>("(5%col)-3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(mod(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<164, (((5 % Col(&T::b)) * 3) == db::param<int32_t>)>("(5%col)*3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(mod(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<170, (((5 % Col(&T::b)) / 3) == db::param<int32_t>)>("(5%col)/3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(mod(I(5), I(r.b)), I(3)), I(p)); });
    expr_p<176, (((5 % Col(&T::b)) % 3) == db::param<int32_t>)>("(5%col)%3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(mod(I(5), I(r.b)), I(3)), I(p)); });
    expr_n<182, (4 == (Col(&T::b) * 2))>("cmp:lit==cal", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(I(4), mul(I(r.b), I(2))); });
    expr_n<188, (Col(&T::a) == (-1))>("cmp:col==-1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(I(r.a), I(-1)); });
    expr_n<194, (Col(&T::d) == 0.5)>("cmp:double==", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.d == 0.5); });
    expr_n<200, ("b"_fs == Col(&T::s))>("str:1==col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("b") == r.s); });
    expr_n<206, ("x\"y"_fs == Col(&T::s))>("str:4==col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("x\"y") == r.s); });
    expr_n<212, (Col(&T::a) != (-1))>("cmp:col!=-1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ne(I(r.a), I(-1)); });
    expr_n<218, (Col(&T::d) != 0.5)>("cmp:double!=", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.d != 0.5); });
    expr_n<224, ("b"_fs != Col(&T::s))>("str:1!=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("b") != r.s); });
    expr_n<230, ("x\"y"_fs != Col(&T::s))>("str:4!=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("x\"y") != r.s); });
    expr_n<236, (Col(&T::a) < (-1))>("cmp:col<-1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return lt(I(r.a), I(-1)); });
    expr_n<242, (Col(&T::d) < 0.5)>("cmp:double<", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.d < 0.5); });
    expr_n<248, ("b"_fs < Col(&T::s))>("str:1<col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("b") < r.s); });
    expr_n<254, ("x\"y"_fs < Col(&T::s))>("str:4<col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("x\"y") < r.s); });
    expr_n<260, (Col(&T::a) <= (-1))>("cmp:col<=-1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return le(I(r.a), I(-1)); });
    expr_n<266, (Col(&T::d) <= 0.5)>("cmp:double<=", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.d <= 0.5); });
    expr_n<272, ("b"_fs <= Col(&T::s))>("str:1<=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("b") <= r.s); });
    expr_n<278, ("x\"y"_fs <= Col(&T::s))>("str:4<=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("x\"y") <= r.s); });
    expr_n<284, (Col(&T::a) > (-1))>("cmp:col>-1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return gt(I(r.a), I(-1)); });
    expr_n<290, (Col(&T::d) > 0.5)>("cmp:double>", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.d > 0.5); });
    expr_n<296, ("b"_fs > Col(&T::s))>("str:1>col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("b") > r.s); });
    expr_n<302, ("x\"y"_fs > Col(&T::s))>("str:4>col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("x\"y") > r.s); });
    expr_n<308, (Col(&T::a) >= (-1))>("cmp:col>=-1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ge(I(r.a), I(-1)); });
    expr_n<314, (Col(&T::d) >= 0.5)>("cmp:double>=", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.d >= 0.5); });
    expr_n<320, ("b"_fs >= Col(&T::s))>("str:1>=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("b") >= r.s); });
    expr_n<326, ("x\"y"_fs >= Col(&T::s))>("str:4>=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(std::string("x\"y") >= r.s); });
    expr_n<332, (Col(&T::a).notIn<2>())>("notin:1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.a != 2); });
    expr_n<338, (Col(&T::s).like<"%b%">())>("like:p", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s.find('b') != std::string::npos || r.s.find('B') != std::string::npos); });
    expr_n<344, ((Col(&T::x) == 1) || (((1 == Col(&T::y))) || (!Col(&T::z))))>("log:0||(1||2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), orr(B(r.y == 1), B(r.z == 0))); });
    expr_n<350, ((Col(&T::x) == 1) && (((1 == Col(&T::y))) && (!Col(&T::z))))>("log:0&&(1&&2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), andd(B(r.y == 1), B(r.z == 0))); });
    expr_n<356, ((Col(&T::x) == 1) && (((1 == Col(&T::y))) || (Col(&T::w).in<1, 5>())))>("log:0&&(1||3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), orr(B(r.y == 1), B(r.w == 1))); });
    expr_n<362, ((Col(&T::x) == 1) || ((!Col(&T::z)) && ((1 == Col(&T::y)))))>("log:0||(2&&1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), andd(B(r.z == 0), B(r.y == 1))); });
    expr_n<368, ((Col(&T::x) == 1) || ((!Col(&T::z)) || (Col(&T::w).in<1, 5>())))>("log:0||(2||3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), orr(B(r.z == 0), B(r.w == 1))); });
    expr_n<374, ((Col(&T::x) == 1) && ((!Col(&T::z)) && (Col(&T::w).in<1, 5>())))>("log:0&&(2&&3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), andd(B(r.z == 0), B(r.w == 1))); });
    expr_n<380, ((Col(&T::x) == 1) && ((Col(&T::w).in<1, 5>()) || ((1 == Col(&T::y)))))>("log:0&&(3||1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), orr(B(r.w == 1), B(r.y == 1))); });
    expr_n<386, ((Col(&T::x) == 1) || ((Col(&T::w).in<1, 5>()) && (!Col(&T::z))))>("log:0||(3&&2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), andd(B(r.w == 1), B(r.z == 0))); });
    expr_n<392, (((1 == Col(&T::y))) || ((Col(&T::x) == 1) || (!Col(&T::z))))>("log:1||(0||2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.y == 1), orr(B(r.x == 1), B(r.z == 0))); });
    expr_n<398, (((1 == Col(&T::y))) && ((Col(&T::x) == 1) && (!Col(&T::z))))>("log:1&&(0&&2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.y == 1), andd(B(r.x == 1), B(r.z == 0))); });
    expr_n<404, (((1 == Col(&T::y))) && ((Col(&T::x) == 1) || (Col(&T::w).in<1, 5>())))>("log:1&&(0||3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.y == 1), orr(B(r.x == 1), B(r.w == 1))); });
    expr_n<410, (((1 == Col(&T::y))) || ((!Col(&T::z)) && (Col(&T::x) == 1)))>("log:1||(2&&0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.y == 1), andd(B(r.z == 0), B(r.x == 1))); });
    expr_n<416, (((1 == Col(&T::y))) || ((!Col(&T::z)) || (Col(&T::w).in<1, 5>())))>("log:1||(2||3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.y == 1), orr(B(r.z == 0), B(r.w == 1))); });
    expr_n<422, (((1 == Col(&T::y))) && ((!Col(&T::z)) && (Col(&T::w).in<1, 5>())))>("log:1&&(2&&3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.y == 1), andd(B(r.z == 0), B(r.w == 1))); });
    expr_n<428, (((1 == Col(&T::y))) && ((Col(&T::w).in<1, 5>()) || (Col(&T::x) == 1)))>("log:1&&(3||0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.y == 1), orr(B(r.w == 1), B(r.x == 1))); });
    expr_n<434, (((1 == Col(&T::y))) || ((Col(&T::w).in<1, 5>()) && (!Col(&T::z))))>("log:1||(3&&2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.y == 1), andd(B(r.w == 1), B(r.z == 0))); });
    expr_n<440, ((!Col(&T::z)) || ((Col(&T::x) == 1) || ((1 == Col(&T::y)))))>("log:2||(0||1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.z == 0), orr(B(r.x == 1), B(r.y == 1))); });
    expr_n<446, ((!Col(&T::z)) && ((Col(&T::x) == 1) && ((1 == Col(&T::y)))))>("log:2&&(0&&1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.z == 0), andd(B(r.x == 1), B(r.y == 1))); });
    expr_n<452, ((!Col(&T::z)) && ((Col(&T::x) == 1) || (Col(&T::w).in<1, 5>())))>("log:2&&(0||3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.z == 0), orr(B(r.x == 1), B(r.w == 1))); });
    expr_n<458, ((!Col(&T::z)) || (((1 == Col(&T::y))) && (Col(&T::x) == 1)))>("log:2||(1&&0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.z == 0), andd(B(r.y == 1), B(r.x == 1))); });
    expr_n<464, ((!Col(&T::z)) || (((1 == Col(&T::y))) || (Col(&T::w).in<1, 5>())))>("log:2||(1||3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.z == 0), orr(B(r.y == 1), B(r.w == 1))); });
    expr_n<470, ((!Col(&T::z)) && (((1 == Col(&T::y))) && (Col(&T::w).in<1, 5>())))>("log:2&&(1&&3)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.z == 0), andd(B(r.y == 1), B(r.w == 1))); });
    expr_n<476, ((!Col(&T::z)) && ((Col(&T::w).in<1, 5>()) || (Col(&T::x) == 1)))>("log:2&&(3||0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.z == 0), orr(B(r.w == 1), B(r.x == 1))); });
    expr_n<482, ((!Col(&T::z)) || ((Col(&T::w).in<1, 5>()) && ((1 == Col(&T::y)))))>("log:2||(3&&1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.z == 0), andd(B(r.w == 1), B(r.y == 1))); });
    expr_n<488, ((Col(&T::w).in<1, 5>()) || ((Col(&T::x) == 1) || ((1 == Col(&T::y)))))>("log:3||(0||1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.w == 1), orr(B(r.x == 1), B(r.y == 1))); });
    expr_n<494, ((Col(&T::w).in<1, 5>()) && ((Col(&T::x) == 1) && ((1 == Col(&T::y)))))>("log:3&&(0&&1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.w == 1), andd(B(r.x == 1), B(r.y == 1))); });
    expr_n<500, ((Col(&T::w).in<1, 5>()) && ((Col(&T::x) == 1) || (!Col(&T::z))))>("log:3&&(0||2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.w == 1), orr(B(r.x == 1), B(r.z == 0))); });
    expr_n<506, ((Col(&T::w).in<1, 5>()) || (((1 == Col(&T::y))) && (Col(&T::x) == 1)))>("log:3||(1&&0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.w == 1), andd(B(r.y == 1), B(r.x == 1))); });
    expr_n<512, ((Col(&T::w).in<1, 5>()) || (((1 == Col(&T::y))) || (!Col(&T::z))))>("log:3||(1||2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.w == 1), orr(B(r.y == 1), B(r.z == 0))); });
    expr_n<518, ((Col(&T::w).in<1, 5>()) && (((1 == Col(&T::y))) && (!Col(&T::z))))>("log:3&&(1&&2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.w == 1), andd(B(r.y == 1), B(r.z == 0))); });
    expr_n<524, ((Col(&T::w).in<1, 5>()) && ((!Col(&T::z)) || (Col(&T::x) == 1)))>("log:3&&(2||0)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.w == 1), orr(B(r.z == 0), B(r.x == 1))); });
    expr_n<530, ((Col(&T::w).in<1, 5>()) || ((!Col(&T::z)) && ((1 == Col(&T::y)))))>("log:3||(2&&1)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.w == 1), andd(B(r.z == 0), B(r.y == 1))); });
    expr_n<536, ((Col(&T::x) == 1) || (((1 == Col(&T::y))) || ((!Col(&T::z)) || (Col(&T::w).in<1, 5>()))))>("log4:p||(q||(s||t))", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), orr(B(r.y == 1), orr(B(r.z == 0), B(r.w == 1)))); });
    expr_n<542, ((Col(&T::x) == 1) || (((1 == Col(&T::y))) && ((!Col(&T::z)) || (Col(&T::w).in<1, 5>()))))>("log4:p||(q&&(s||t))", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), andd(B(r.y == 1), orr(B(r.z == 0), B(r.w == 1)))); });
    expr_n<548, ((Col(&T::x) == 1) && (((1 == Col(&T::y))) || ((!Col(&T::z)) || (Col(&T::w).in<1, 5>()))))>("log4:p&&(q||(s||t))", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), orr(B(r.y == 1), orr(B(r.z == 0), B(r.w == 1)))); });
    expr_n<554, ((Col(&T::x) == 1) && (((1 == Col(&T::y))) && ((!Col(&T::z)) || (Col(&T::w).in<1, 5>()))))>("log4:p&&(q&&(s||t))", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), andd(B(r.y == 1), orr(B(r.z == 0), B(r.w == 1)))); });
    expr_pq<560, ((Col(&T::a) > db::param<int32_t>) || ((Col(&T::b) < db::param<int32_t>) || (4 - Col(&T::b) == 1)))>("mix2:||||", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(gt(I(r.a), I(p)), orr(lt(I(r.b), I(q)), eq(sub(I(4), I(r.b)), I(1)))); });
    expr_pq<566, ((Col(&T::a) > db::param<int32_t>) && ((Col(&T::b) < db::param<int32_t>) && (4 - Col(&T::b) == 1)))>("mix2:&&&&", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(gt(I(r.a), I(p)), andd(lt(I(r.b), I(q)), eq(sub(I(4), I(r.b)), I(1)))); });
}
} // namespace vp
void mc_main() { vp::go(); }
