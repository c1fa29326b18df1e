// generated by tools/gen_p35.py: query expressions and their reference evaluation
#include "P35_common.hpp"
namespace vp {
void go() {
    expr_p<3, (((-2) + Col(&T::b)) == db::param<int32_t>)>("lit-2+col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(-2), I(r.b)), I(p)); });
    expr_p<9, ((9 + (5 + Col(&T::b))) == db::param<int32_t>)>("9+(5+col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(9), add(I(5), I(r.b))), I(p)); });
    expr_p<15, ((9 - (5 + Col(&T::b))) == db::param<int32_t>)>("9-(5+col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(9), add(I(5), I(r.b))), I(p)); });
    expr_p<21, ((9 * (5 + Col(&T::b))) == db::param<int32_t>)>("9*(5+col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(9), add(I(5), I(r.b))), I(p)); });
    expr_p<27, ((9 / (5 + Col(&T::b))) == db::param<int32_t>)>("9/(5+col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(9), add(I(5), I(r.b))), I(p)); });
    expr_p<33, ((9 % (5 + Col(&T::b))) == db::param<int32_t>)>("9%(5+col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(9), add(I(5), I(r.b))), I(p)); });
    expr_p<39, (((-2) - Col(&T::b)) == db::param<int32_t>)>("lit-2-col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(-2), I(r.b)), I(p)); });
    expr_p<45, ((9 + (5 - Col(&T::b))) == db::param<int32_t>)>("9+(5-col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(9), sub(I(5), I(r.b))), I(p)); });
    expr_p<51, ((9 - (5 - Col(&T::b))) == db::param<int32_t>)>("9-(5-col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(9), sub(I(5), I(r.b))), I(p)); });
    expr_p<57, ((9 * (5 - Col(&T::b))) == db::param<int32_t>)>("9*(5-col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(9), sub(I(5), I(r.b))), I(p)); });
    expr_p<63, ((9 / (5 - Col(&T::b))) == db::param<int32_t>)>("9/(5-col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(9), sub(I(5), I(r.b))), I(p)); });
    expr_p<69, ((9 % (5 - Col(&T::b))) == db::param<int32_t>)>("9%(5-col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(9), sub(I(5), I(r.b))), I(p)); });
    expr_p<75, (((-2) * Col(&T::b)) == db::param<int32_t>)>("lit-2*col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(-2), I(r.b)), I(p)); });
    expr_p<81, ((9 + (5 * Col(&T::b))) == db::param<int32_t>)>("9+(5*col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(9), mul(I(5), I(r.b))), I(p)); });
    expr_p<87, ((9 - (5 * Col(&T::b))) == db::param<int32_t>)>("9-(5*col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(9), mul(I(5), I(r.b))), I(p)); });
    expr_p<93, ((9 * (5 * Col(&T::b))) == db::param<int32_t>)>("9*(5*col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(9), mul(I(5), I(r.b))), I(p)); });
    expr_p<99, ((9 / (5 * Col(&T::b))) == db::param<int32_t>)>("9/(5*col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(9), mul(I(5), I(r.b))), I(p)); });
    expr_p<105, ((9 % (5 * Col(&T::b))) == db::param<int32_t>)>("9%(5*col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(9), mul(I(5), I(r.b))), I(p)); });
    expr_p<111, (((-2) / Col(&T::b)) == db::param<int32_t>)>("lit-2/col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(-2), I(r.b)), I(p)); });
    expr_p<117, ((9 + (5 / Col(&T::b))) == db::param<int32_t>)>("9+(5/col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(9), div(I(5), I(r.b))), I(p)); });
    expr_p<123, ((9 - (5 / Col(&T::b))) == db::param<int32_t>)>("9-(5/col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(9), div(I(5), I(r.b))), I(p)); });
    expr_p<129, ((9 * (5 / Col(&T::b))) == db::param<int32_t>)>("9*(5/col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(9), div(I(5), I(r.b))), I(p)); });
    expr_p<135, ((9 / (5 / Col(&T::b))) == db::param<int32_t>)>("9/(5/col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(9), div(I(5), I(r.b))), I(p)); });
    expr_p<141, ((9 % (5 / Col(&T::b))) == db::param<int32_t>)>("9%(5/col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(9), div(I(5), I(r.b))), I(p)); });
    expr_p<147, (((-2) % Col(&T::b)) == db::param<int32_t>)>("lit-2%col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(-2), I(r.b)), I(p)); });
    expr_p<153, ((9 + (5 % Col(&T::b))) == db::param<int32_t>)>("9+(5%col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(add(I(9), mod(I(5), I(r.b))), I(p)); });
    expr_p<159, ((9 - (5 % Col(&T::b))) == db::param<int32_t>)>("9-(5%col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(sub(I(9), mod(I(5), I(r.b))), I(p)); });
    expr_p<165, ((9 * (5 % Col(&T::b))) == db::param<int32_t>)>("9*(5%col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mul(I(9), mod(I(5), I(r.b))), I(p)); });
    expr_p<171, ((9 / (5 % Col(&T::b))) == db::param<int32_t>)>("9/(5%col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(div(I(9), mod(I(5), I(r.b))), I(p)); });
    expr_p<177, ((9 % (5 % Col(&T::b))) == db::param<int32_t>)>("9%(5%col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(mod(I(9), mod(I(5), I(r.b))), I(p)); });
    expr_n<183, ((Col(&T::a) - 1) != Col(&T::b))>("cmp:cal!=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ne(sub(I(r.a), I(1)), I(r.b)); });
    expr_n<189, ((-1) == Col(&T::a))>("cmp:-1==col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(I(-1), I(r.a)); });
    expr_n<195, (-1.25 == Col(&T::d))>("cmp:==double", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(-1.25 == r.d); });
    expr_n<201, (Col(&T::s) == "it's"_fs)>("str:col==2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s == std::string("it's")); });
    expr_n<207, (Col(&T::s) == "?'); --"_fs)>("str:col==5", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s == std::string("?'); --")); });
    expr_n<213, ((-1) != Col(&T::a))>("cmp:-1!=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ne(I(-1), I(r.a)); });
    expr_n<219, (-1.25 != Col(&T::d))>("cmp:!=double", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(-1.25 != r.d); });
    expr_n<225, (Col(&T::s) != "it's"_fs)>("str:col!=2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s != std::string("it's")); });
    expr_n<231, (Col(&T::s) != "?'); --"_fs)>("str:col!=5", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s != std::string("?'); --")); });
    expr_n<237, ((-1) < Col(&T::a))>("cmp:-1<col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return lt(I(-1), I(r.a)); });
    expr_n<243, (-1.25 < Col(&T::d))>("cmp:<double", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(-1.25 < r.d); });
    expr_n<249, (Col(&T::s) < "it's"_fs)>("str:col<2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s < std::string("it's")); });
    expr_n<255, (Col(&T::s) < "?'); --"_fs)>("str:col<5", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s < std::string("?'); --")); });
    expr_n<261, ((-1) <= Col(&T::a))>("cmp:-1<=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return le(I(-1), I(r.a)); });
    expr_n<267, (-1.25 <= Col(&T::d))>("cmp:<=double", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(-1.25 <= r.d); });
    expr_n<273, (Col(&T::s) <= "it's"_fs)>("str:col<=2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s <= std::string("it's")); });
    expr_n<279, (Col(&T::s) <= "?'); --"_fs)>("str:col<=5", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s <= std::string("?'); --")); });
    expr_n<285, ((-1) > Col(&T::a))>("cmp:-1>col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return gt(I(-1), I(r.a)); });
    expr_n<291, (-1.25 > Col(&T::d))>("cmp:>double", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(-1.25 > r.d); });
    expr_n<297, (Col(&T::s) > "it's"_fs)>("str:col>2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s > std::string("it's")); });
    expr_n<303, (Col(&T::s) > "?'); --"_fs)>("str:col>5", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s > std::string("?'); --")); });
    expr_n<309, ((-1) >= Col(&T::a))>("cmp:-1>=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ge(I(-1), I(r.a)); });
    expr_n<315, (-1.25 >= Col(&T::d))>("cmp:>=double", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(-1.25 >= r.d); });
    expr_n<321, (Col(&T::s) >= "it's"_fs)>("str:col>=2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s >= std::string("it's")); });
    expr_n<327, (Col(&T::s) >= "?'); --"_fs)>("str:col>=5", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s >= std::string("?'); --")); });
    expr_n<333, (Col(&T::a).notIn<2, 5>())>("notin:2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.a != 2 && r.a != 5); });
    expr_n<339, (Col(&T::s).like<"_">())>("like:_", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s.size() == 1); });
    expr_n<345, (((Col(&T::x) == 1) || ((1 == Col(&T::y)))) && (!Col(&T::z)))>("log:(0||1)&&2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.x == 1), B(r.y == 1)), B(r.z == 0)); });
    expr_n<351, (((Col(&T::x) == 1) || ((1 == Col(&T::y)))) || (Col(&T::w).in<1, 5>()))>("log:(0||1)||3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.x == 1), B(r.y == 1)), B(r.w == 1)); });
    expr_n<357, (((Col(&T::x) == 1) && ((1 == Col(&T::y)))) && (Col(&T::w).in<1, 5>()))>("log:(0&&1)&&3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.x == 1), B(r.y == 1)), B(r.w == 1)); });
    expr_n<363, (((Col(&T::x) == 1) && (!Col(&T::z))) || ((1 == Col(&T::y))))>("log:(0&&2)||1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.x == 1), B(r.z == 0)), B(r.y == 1)); });
    expr_n<369, (((Col(&T::x) == 1) || (!Col(&T::z))) && (Col(&T::w).in<1, 5>()))>("log:(0||2)&&3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.x == 1), B(r.z == 0)), B(r.w == 1)); });
    expr_n<375, (((Col(&T::x) == 1) || (Col(&T::w).in<1, 5>())) || ((1 == Col(&T::y))))>("log:(0||3)||1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.x == 1), B(r.w == 1)), B(r.y == 1)); });
    expr_n<381, (((Col(&T::x) == 1) && (Col(&T::w).in<1, 5>())) && ((1 == Col(&T::y))))>("log:(0&&3)&&1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.x == 1), B(r.w == 1)), B(r.y == 1)); });
    expr_n<387, (((Col(&T::x) == 1) && (Col(&T::w).in<1, 5>())) || (!Col(&T::z)))>("log:(0&&3)||2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.x == 1), B(r.w == 1)), B(r.z == 0)); });
    expr_n<393, ((((1 == Col(&T::y))) || (Col(&T::x) == 1)) && (!Col(&T::z)))>("log:(1||0)&&2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.y == 1), B(r.x == 1)), B(r.z == 0)); });
    expr_n<399, ((((1 == Col(&T::y))) || (Col(&T::x) == 1)) || (Col(&T::w).in<1, 5>()))>("log:(1||0)||3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.y == 1), B(r.x == 1)), B(r.w == 1)); });
    expr_n<405, ((((1 == Col(&T::y))) && (Col(&T::x) == 1)) && (Col(&T::w).in<1, 5>()))>("log:(1&&0)&&3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.y == 1), B(r.x == 1)), B(r.w == 1)); });
    expr_n<411, ((((1 == Col(&T::y))) && (!Col(&T::z))) || (Col(&T::x) == 1))>("log:(1&&2)||0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.y == 1), B(r.z == 0)), B(r.x == 1)); });
    expr_n<417, ((((1 == Col(&T::y))) || (!Col(&T::z))) && (Col(&T::w).in<1, 5>()))>("log:(1||2)&&3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.y == 1), B(r.z == 0)), B(r.w == 1)); });
    expr_n<423, ((((1 == Col(&T::y))) || (Col(&T::w).in<1, 5>())) || (Col(&T::x) == 1))>("log:(1||3)||0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.y == 1), B(r.w == 1)), B(r.x == 1)); });
    expr_n<429, ((((1 == Col(&T::y))) && (Col(&T::w).in<1, 5>())) && (Col(&T::x) == 1))>("log:(1&&3)&&0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.y == 1), B(r.w == 1)), B(r.x == 1)); });
    expr_n<435, ((((1 == Col(&T::y))) && (Col(&T::w).in<1, 5>())) || (!Col(&T::z)))>("log:(1&&3)||2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.y == 1), B(r.w == 1)), B(r.z == 0)); });
    expr_n<441, (((!Col(&T::z)) || (Col(&T::x) == 1)) && ((1 == Col(&T::y))))>("log:(2||0)&&1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.z == 0), B(r.x == 1)), B(r.y == 1)); });
    expr_n<447, (((!Col(&T::z)) || (Col(&T::x) == 1)) || (Col(&T::w).in<1, 5>()))>("log:(2||0)||3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.z == 0), B(r.x == 1)), B(r.w == 1)); });
    expr_n<453, (((!Col(&T::z)) && (Col(&T::x) == 1)) && (Col(&T::w).in<1, 5>()))>("log:(2&&0)&&3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.z == 0), B(r.x == 1)), B(r.w == 1)); });
    expr_n<459, (((!Col(&T::z)) && ((1 == Col(&T::y)))) || (Col(&T::x) == 1))>("log:(2&&1)||0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.z == 0), B(r.y == 1)), B(r.x == 1)); });
    expr_n<465, (((!Col(&T::z)) || ((1 == Col(&T::y)))) && (Col(&T::w).in<1, 5>()))>("log:(2||1)&&3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.z == 0), B(r.y == 1)), B(r.w == 1)); });
    expr_n<471, (((!Col(&T::z)) || (Col(&T::w).in<1, 5>())) || (Col(&T::x) == 1))>("log:(2||3)||0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.z == 0), B(r.w == 1)), B(r.x == 1)); });
    expr_n<477, (((!Col(&T::z)) && (Col(&T::w).in<1, 5>())) && (Col(&T::x) == 1))>("log:(2&&3)&&0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.z == 0), B(r.w == 1)), B(r.x == 1)); });
    expr_n<483, (((!Col(&T::z)) && (Col(&T::w).in<1, 5>())) || ((1 == Col(&T::y))))>("log:(2&&3)||1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.z == 0), B(r.w == 1)), B(r.y == 1)); });
    expr_n<489, (((Col(&T::w).in<1, 5>()) || (Col(&T::x) == 1)) && ((1 == Col(&T::y))))>("log:(3||0)&&1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.w == 1), B(r.x == 1)), B(r.y == 1)); });
    expr_n<495, (((Col(&T::w).in<1, 5>()) || (Col(&T::x) == 1)) || (!Col(&T::z)))>("log:(3||0)||2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.w == 1), B(r.x == 1)), B(r.z == 0)); });
    expr_n<501, (((Col(&T::w).in<1, 5>()) && (Col(&T::x) == 1)) && (!Col(&T::z)))>("log:(3&&0)&&2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.w == 1), B(r.x == 1)), B(r.z == 0)); });
    expr_n<507, (((Col(&T::w).in<1, 5>()) && ((1 == Col(&T::y)))) || (Col(&T::x) == 1))>("log:(3&&1)||0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.w == 1), B(r.y == 1)), B(r.x == 1)); });
    expr_n<513, (((Col(&T::w).in<1, 5>()) || ((1 == Col(&T::y)))) && (!Col(&T::z)))>("log:(3||1)&&2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.w == 1), B(r.y == 1)), B(r.z == 0)); });
    expr_n<519, (((Col(&T::w).in<1, 5>()) || (!Col(&T::z))) || (Col(&T::x) == 1))>("log:(3||2)||0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.w == 1), B(r.z == 0)), B(r.x == 1)); });
    expr_n<525, (((Col(&T::w).in<1, 5>()) && (!Col(&T::z))) && (Col(&T::x) == 1))>("log:(3&&2)&&0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.w == 1), B(r.z == 0)), B(r.x == 1)); });
    expr_n<531, (((Col(&T::w).in<1, 5>()) && (!Col(&T::z))) || ((1 == Col(&T::y))))>("log:(3&&2)||1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.w == 1), B(r.z == 0)), B(r.y == 1)); });
    expr_n<537, ((((Col(&T::x) == 1) || ((1 == Col(&T::y)))) || (!Col(&T::z))) || (Col(&T::w).in<1, 5>()))>("log4:((p||q)||s)||t", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(orr(B(r.x == 1), B(r.y == 1)), B(r.z == 0)), B(r.w == 1)); });
    expr_n<543, ((((Col(&T::x) == 1) || ((1 == Col(&T::y)))) && (!Col(&T::z))) || (Col(&T::w).in<1, 5>()))>("log4:((p||q)&&s)||t", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(orr(B(r.x == 1), B(r.y == 1)), B(r.z == 0)), B(r.w == 1)); });
    expr_n<549, ((((Col(&T::x) == 1) && ((1 == Col(&T::y)))) || (!Col(&T::z))) || (Col(&T::w).in<1, 5>()))>("log4:((p&&q)||s)||t", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(andd(B(r.x == 1), B(r.y == 1)), B(r.z == 0)), B(r.w == 1)); });
    expr_n<555, ((((Col(&T::x) == 1) && ((1 == Col(&T::y)))) && (!Col(&T::z))) || (Col(&T::w).in<1, 5>()))>("log4:((p&&q)&&s)||t", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(andd(B(r.x == 1), B(r.y == 1)), B(r.z == 0)), B(r.w == 1)); });
    expr_pq<561, ((((Col(&T::a) + 1) * 2 == db::param<int32_t>) || (3 > Col(&T::b))) && (Col(&T::a) != db::param<int32_t>))>("mix:||&&", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(eq(mul(add(I(r.a), I(1)), I(2)), I(p)), gt(I(3), I(r.b))), ne(I(r.a), I(q))); });
}
} // namespace vp
void mc_main() { vp::go(); }
