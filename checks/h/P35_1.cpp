// generated by tools/gen_p35.py: query expressions and their reference evaluation
#include "P35_common.hpp"
namespace vp {
void go() {
    expr_p<1, ((3 + Col(&T::b)) == db::param<int32_t>)>("lit3+col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(3), I(r.b)), I(p)); });
    expr_p<7, ((7 + (Col(&T::a) + 2)) == db::param<int32_t>)>("7+(col+2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(7), add(I(r.a), I(2))), I(p)); });
    expr_p<13, ((7 - (Col(&T::a) + 2)) == db::param<int32_t>)>("7-(col+2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(7), add(I(r.a), I(2))), I(p)); });
    expr_p<19, ((7 * (Col(&T::a) + 2)) == db::param<int32_t>)>("7*(col+2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(7), add(I(r.a), I(2))), I(p)); });
    expr_p<25, ((7 / (Col(&T::a) + 2)) == db::param<int32_t>)>("7/(col+2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(7), add(I(r.a), I(2))), I(p)); });
    expr_p<31, ((7 % (Col(&T::a) + 2)) == db::param<int32_t>)>("7%(col+2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(7), add(I(r.a), I(2))), I(p)); });
    expr_p<37, ((3 - Col(&T::b)) == db::param<int32_t>)>("lit3-col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(3), I(r.b)), I(p)); });
    expr_p<43, ((7 + (Col(&T::a) - 2)) == db::param<int32_t>)>("7+(col-2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(7), sub(I(r.a), I(2))), I(p)); });
    expr_p<49, ((7 - (Col(&T::a) - 2)) == db::param<int32_t>)>("7-(col-2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(7), sub(I(r.a), I(2))), I(p)); });
    expr_p<55, ((7 * (Col(&T::a) - 2)) == db::param<int32_t>)>("7*(col-2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(7), sub(I(r.a), I(2))), I(p)); });
    expr_p<61, ((7 / (Col(&T::a) - 2)) == db::param<int32_t>)>("7/(col-2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(7), sub(I(r.a), I(2))), I(p)); });
    expr_p<67, ((7 % (Col(&T::a) - 2)) == db::param<int32_t>)>("7%(col-2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(7), sub(I(r.a), I(2))), I(p)); });
    expr_p<73, ((3 * Col(&T::b)) == db::param<int32_t>)>("lit3*col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(3), I(r.b)), I(p)); });
    expr_p<79, ((7 + (Col(&T::a) * 2)) == db::param<int32_t>)>("7+(col*2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(7), mul(I(r.a), I(2))), I(p)); });
    expr_p<85, ((7 - (Col(&T::a) * 2)) == db::param<int32_t>)>("7-(col*2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(7), mul(I(r.a), I(2))), I(p)); });
    expr_p<91, ((7 * (Col(&T::a) * 2)) == db::param<int32_t>)>("7*(col*2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(7), mul(I(r.a), I(2))), I(p)); });
    expr_p<97, ((7 / (Col(&T::a) * 2)) == db::param<int32_t>)>("7/(col*2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(7), mul(I(r.a), I(2))), I(p)); });
    expr_p<103, ((7 % (Col(&T::a) * 2)) == db::param<int32_t>)>("7%(col*2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(7), mul(I(r.a), I(2))), I(p)); });
    expr_p<109, ((3 / Col(&T::b)) == db::param<int32_t>)>("lit3/col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(3), I(r.b)), I(p)); });
    expr_p<115, ((7 + (Col(&T::a) / 2)) == db::param<int32_t>)>("7+(col/2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(7), div(I(r.a), I(2))), I(p)); });
    expr_p<121, ((7 - (Col(&T::a) / 2)) == db::param<int32_t>)>("7-(col/2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(7), div(I(r.a), I(2))), I(p)); });
    expr_p<127, ((7 * (Col(&T::a) / 2)) == db::param<int32_t>)>("7*(col/2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(7), div(I(r.a), I(2))), I(p)); });
    expr_p<133, ((7 / (Col(&T::a) / 2)) == db::param<int32_t>)>("7/(col/2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(7), div(I(r.a), I(2))), I(p)); });
    expr_p<139, ((7 % (Col(&T::a) / 2)) == db::param<int32_t>)>("7%(col/2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(7), div(I(r.a), I(2))), I(p)); });
    expr_p<145, ((3 % Col(&T::b)) == db::param<int32_t>)>("lit3%col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(3), I(r.b)), I(p)); });
    expr_p<151, ((7 + (Col(&T::a) % 2)) == db::param<int32_t>)>("7+(col%2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(7), mod(I(r.a), I(2))), I(p)); });
    expr_p<157, ((7 - (Col(&T::a) % 2)) == db::param<int32_t>)>("7-(col%2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(7), mod(I(r.a), I(2))), I(p)); });
    expr_p<163, ((7 * (Col(&T::a) % 2)) == db::param<int32_t>)>("7*(col%2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(7), mod(I(r.a), I(2))), I(p)); });
    expr_p<169, ((7 / (Col(&T::a) % 2)) == db::param<int32_t>)>("7/(col%2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(7), mod(I(r.a), I(2))), I(p)); });
    expr_p<175, ((7 % (Col(&T::a) % 2)) == db::param<int32_t>)>("7%(col%2)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(7), mod(I(r.a), I(2))), I(p)); });
    expr_n<181, (Col(&T::a) == (Col(&T::b) * 2))>("cmp:col==cal", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(I(r.a), mul(I(r.b), I(2))); });
    expr_p<187, (Col(&T::a) == db::param<int32_t>)>("cmp:col==param", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(I(r.a), I(p)); });
    expr_n<193, (2 == Col(&T::a))>("cmp:2==col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(I(2), I(r.a)); });
    expr_n<199, (Col(&T::s) == "b"_fs)>("str:col==1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s == std::string("b")); });
    expr_n<205, (Col(&T::s) == "x\"y"_fs)>("str:col==4", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s == std::string("x\"y")); });
    expr_p<211, (Col(&T::a) != db::param<int32_t>)>("cmp:col!=param", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ne(I(r.a), I(p)); });
    expr_n<217, (2 != Col(&T::a))>("cmp:2!=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ne(I(2), I(r.a)); });
    expr_n<223, (Col(&T::s) != "b"_fs)>("str:col!=1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s != std::string("b")); });
    expr_n<229, (Col(&T::s) != "x\"y"_fs)>("str:col!=4", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s != std::string("x\"y")); });
    expr_p<235, (Col(&T::a) < db::param<int32_t>)>("cmp:col<param", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return lt(I(r.a), I(p)); });
    expr_n<241, (2 < Col(&T::a))>("cmp:2<col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return lt(I(2), I(r.a)); });
    expr_n<247, (Col(&T::s) < "b"_fs)>("str:col<1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s < std::string("b")); });
    expr_n<253, (Col(&T::s) < "x\"y"_fs)>("str:col<4", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s < std::string("x\"y")); });
    expr_p<259, (Col(&T::a) <= db::param<int32_t>)>("cmp:col<=param", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return le(I(r.a), I(p)); });
    expr_n<265, (2 <= Col(&T::a))>("cmp:2<=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return le(I(2), I(r.a)); });
    expr_n<271, (Col(&T::s) <= "b"_fs)>("str:col<=1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s <= std::string("b")); });
    expr_n<277, (Col(&T::s) <= "x\"y"_fs)>("str:col<=4", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s <= std::string("x\"y")); });
    expr_p<283, (Col(&T::a) > db::param<int32_t>)>("cmp:col>param", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return gt(I(r.a), I(p)); });
    expr_n<289, (2 > Col(&T::a))>("cmp:2>col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return gt(I(2), I(r.a)); });
    expr_n<295, (Col(&T::s) > "b"_fs)>("str:col>1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s > std::string("b")); });
    expr_n<301, (Col(&T::s) > "x\"y"_fs)>("str:col>4", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s > std::string("x\"y")); });
    expr_p<307, (Col(&T::a) >= db::param<int32_t>)>("cmp:col>=param", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ge(I(r.a), I(p)); });
    expr_n<313, (2 >= Col(&T::a))>("cmp:2>=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ge(I(2), I(r.a)); });
    expr_n<319, (Col(&T::s) >= "b"_fs)>("str:col>=1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s >= std::string("b")); });
    expr_n<325, (Col(&T::s) >= "x\"y"_fs)>("str:col>=4", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s >= std::string("x\"y")); });
    expr_n<331, (Col(&T::a).in<2, -1, 0>())>("in:3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.a == 2 || r.a == -1 || r.a == 0); });
    expr_n<337, (Col(&T::s).notIn<"b"_fs>())>("notin:str", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s != "b"); });
    expr_n<343, (((Col(&T::x) == 1) || ((1 == Col(&T::y)))) || (!Col(&T::z)))>("log:(0||1)||2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.x == 1), B(r.y == 1)), B(r.z == 0)); });
    expr_n<349, (((Col(&T::x) == 1) && ((1 == Col(&T::y)))) && (!Col(&T::z)))>("log:(0&&1)&&2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.x == 1), B(r.y == 1)), B(r.z == 0)); });
    expr_n<355, (((Col(&T::x) == 1) && ((1 == Col(&T::y)))) || (Col(&T::w).in<1, 5>()))>("log:(0&&1)||3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.x == 1), B(r.y == 1)), B(r.w == 1)); });
    expr_n<361, (((Col(&T::x) == 1) || (!Col(&T::z))) && ((1 == Col(&T::y))))>("log:(0||2)&&1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.x == 1), B(r.z == 0)), B(r.y == 1)); });
    expr_n<367, (((Col(&T::x) == 1) || (!Col(&T::z))) || (Col(&T::w).in<1, 5>()))>("log:(0||2)||3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.x == 1), B(r.z == 0)), B(r.w == 1)); });
    expr_n<373, (((Col(&T::x) == 1) && (!Col(&T::z))) && (Col(&T::w).in<1, 5>()))>("log:(0&&2)&&3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.x == 1), B(r.z == 0)), B(r.w == 1)); });
    expr_n<379, (((Col(&T::x) == 1) && (Col(&T::w).in<1, 5>())) || ((1 == Col(&T::y))))>("log:(0&&3)||1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.x == 1), B(r.w == 1)), B(r.y == 1)); });
    expr_n<385, (((Col(&T::x) == 1) || (Col(&T::w).in<1, 5>())) && (!Col(&T::z)))>("log:(0||3)&&2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.x == 1), B(r.w == 1)), B(r.z == 0)); });
    expr_n<391, ((((1 == Col(&T::y))) || (Col(&T::x) == 1)) || (!Col(&T::z)))>("log:(1||0)||2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.y == 1), B(r.x == 1)), B(r.z == 0)); });
    expr_n<397, ((((1 == Col(&T::y))) && (Col(&T::x) == 1)) && (!Col(&T::z)))>("log:(1&&0)&&2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.y == 1), B(r.x == 1)), B(r.z == 0)); });
    expr_n<403, ((((1 == Col(&T::y))) && (Col(&T::x) == 1)) || (Col(&T::w).in<1, 5>()))>("log:(1&&0)||3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.y == 1), B(r.x == 1)), B(r.w == 1)); });
    expr_n<409, ((((1 == Col(&T::y))) || (!Col(&T::z))) && (Col(&T::x) == 1))>("log:(1||2)&&0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.y == 1), B(r.z == 0)), B(r.x == 1)); });
    expr_n<415, ((((1 == Col(&T::y))) || (!Col(&T::z))) || (Col(&T::w).in<1, 5>()))>("log:(1||2)||3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.y == 1), B(r.z == 0)), B(r.w == 1)); });
    expr_n<421, ((((1 == Col(&T::y))) && (!Col(&T::z))) && (Col(&T::w).in<1, 5>()))>("log:(1&&2)&&3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.y == 1), B(r.z == 0)), B(r.w == 1)); });
    expr_n<427, ((((1 == Col(&T::y))) && (Col(&T::w).in<1, 5>())) || (Col(&T::x) == 1))>("log:(1&&3)||0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.y == 1), B(r.w == 1)), B(r.x == 1)); });
    expr_n<433, ((((1 == Col(&T::y))) || (Col(&T::w).in<1, 5>())) && (!Col(&T::z)))>("log:(1||3)&&2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.y == 1), B(r.w == 1)), B(r.z == 0)); });
    expr_n<439, (((!Col(&T::z)) || (Col(&T::x) == 1)) || ((1 == Col(&T::y))))>("log:(2||0)||1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.z == 0), B(r.x == 1)), B(r.y == 1)); });
    expr_n<445, (((!Col(&T::z)) && (Col(&T::x) == 1)) && ((1 == Col(&T::y))))>("log:(2&&0)&&1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.z == 0), B(r.x == 1)), B(r.y == 1)); });
    expr_n<451, (((!Col(&T::z)) && (Col(&T::x) == 1)) || (Col(&T::w).in<1, 5>()))>("log:(2&&0)||3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.z == 0), B(r.x == 1)), B(r.w == 1)); });
    expr_n<457, (((!Col(&T::z)) || ((1 == Col(&T::y)))) && (Col(&T::x) == 1))>("log:(2||1)&&0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.z == 0), B(r.y == 1)), B(r.x == 1)); });
    expr_n<463, (((!Col(&T::z)) || ((1 == Col(&T::y)))) || (Col(&T::w).in<1, 5>()))>("log:(2||1)||3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.z == 0), B(r.y == 1)), B(r.w == 1)); });
    expr_n<469, (((!Col(&T::z)) && ((1 == Col(&T::y)))) && (Col(&T::w).in<1, 5>()))>("log:(2&&1)&&3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.z == 0), B(r.y == 1)), B(r.w == 1)); });
    expr_n<475, (((!Col(&T::z)) && (Col(&T::w).in<1, 5>())) || (Col(&T::x) == 1))>("log:(2&&3)||0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.z == 0), B(r.w == 1)), B(r.x == 1)); });
    expr_n<481, (((!Col(&T::z)) || (Col(&T::w).in<1, 5>())) && ((1 == Col(&T::y))))>("log:(2||3)&&1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.z == 0), B(r.w == 1)), B(r.y == 1)); });
    expr_n<487, (((Col(&T::w).in<1, 5>()) || (Col(&T::x) == 1)) || ((1 == Col(&T::y))))>("log:(3||0)||1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.w == 1), B(r.x == 1)), B(r.y == 1)); });
    expr_n<493, (((Col(&T::w).in<1, 5>()) && (Col(&T::x) == 1)) && ((1 == Col(&T::y))))>("log:(3&&0)&&1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.w == 1), B(r.x == 1)), B(r.y == 1)); });
    expr_n<499, (((Col(&T::w).in<1, 5>()) && (Col(&T::x) == 1)) || (!Col(&T::z)))>("log:(3&&0)||2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.w == 1), B(r.x == 1)), B(r.z == 0)); });
    expr_n<505, (((Col(&T::w).in<1, 5>()) || ((1 == Col(&T::y)))) && (Col(&T::x) == 1))>("log:(3||1)&&0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.w == 1), B(r.y == 1)), B(r.x == 1)); });
    expr_n<511, (((Col(&T::w).in<1, 5>()) || ((1 == Col(&T::y)))) || (!Col(&T::z)))>("log:(3||1)||2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.w == 1), B(r.y == 1)), B(r.z == 0)); });
    expr_n<517, (((Col(&T::w).in<1, 5>()) && ((1 == Col(&T::y)))) && (!Col(&T::z)))>("log:(3&&1)&&2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.w == 1), B(r.y == 1)), B(r.z == 0)); });
    expr_n<523, (((Col(&T::w).in<1, 5>()) && (!Col(&T::z))) || (Col(&T::x) == 1))>("log:(3&&2)||0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.w == 1), B(r.z == 0)), B(r.x == 1)); });
    expr_n<529, (((Col(&T::w).in<1, 5>()) || (!Col(&T::z))) && ((1 == Col(&T::y))))>("log:(3||2)&&1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.w == 1), B(r.z == 0)), B(r.y == 1)); });
    expr_n<535, (((Col(&T::x) == 1) || ((1 == Col(&T::y)))) || ((!Col(&T::z)) || (Col(&T::w).in<1, 5>())))>("log4:(p||q)||(s||t)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.x == 1), B(r.y == 1)), orr(B(r.z == 0), B(r.w == 1))); });
    expr_n<541, (((Col(&T::x) == 1) || ((1 == Col(&T::y)))) && ((!Col(&T::z)) || (Col(&T::w).in<1, 5>())))>("log4:(p||q)&&(s||t)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.x == 1), B(r.y == 1)), orr(B(r.z == 0), B(r.w == 1))); });
    expr_n<547, (((Col(&T::x) == 1) && ((1 == Col(&T::y)))) || ((!Col(&T::z)) || (Col(&T::w).in<1, 5>())))>("log4:(p&&q)||(s||t)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.x == 1), B(r.y == 1)), orr(B(r.z == 0), B(r.w == 1))); });
    expr_n<553, (((Col(&T::x) == 1) && ((1 == Col(&T::y)))) && ((!Col(&T::z)) || (Col(&T::w).in<1, 5>())))>("log4:(p&&q)&&(s||t)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.x == 1), B(r.y == 1)), orr(B(r.z == 0), B(r.w == 1))); });
    expr_pq<559, ((((Col(&T::a) + 1) * 2 == db::param<int32_t>) || (3 > Col(&T::b))) || (Col(&T::a) != db::param<int32_t>))>("mix:||||", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(eq(mul(add(I(r.a), I(1)), I(2)), I(p)), gt(I(3), I(r.b))), ne(I(r.a), I(q))); });
    expr_pq<565, ((((Col(&T::a) + 1) * 2 == db::param<int32_t>) && (3 > Col(&T::b))) && (Col(&T::a) != db::param<int32_t>))>("mix:&&&&", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(eq(mul(add(I(r.a), I(1)), I(2)), I(p)), gt(I(3), I(r.b))), ne(I(r.a), I(q))); });
}
} // namespace vp
void mc_main() { vp::go(); }
