// generated by tools/gen_p35.py: query expressions and their reference evaluation
#include "P35_common.hpp"
namespace vp {
void go() {
    expr_p<5, (Col(&T::a) + db::param<int32_t>)>("truth:col+param", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return add(I(r.a), I(p)); });
    expr_n<11, (Col(&T::a) + (2 + Col(&T::b)))>("truth:col+(2+col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return add(I(r.a), add(I(2), I(r.b))); });
    expr_n<17, (Col(&T::a) - (2 + Col(&T::b)))>("truth:col-(2+col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return sub(I(r.a), add(I(2), I(r.b))); });
    expr_n<23, (Col(&T::a) * (2 + Col(&T::b)))>("truth:col*(2+col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mul(I(r.a), add(I(2), I(r.b))); });
    expr_n<29, (Col(&T::a) / (2 + Col(&T::b)))>("truth:col/(2+col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return div(I(r.a), add(I(2), I(r.b))); });
    expr_n<35, (Col(&T::a) % (2 + Col(&T::b)))>("truth:col%(2+col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mod(I(r.a), add(I(2), I(r.b))); });
    expr_p<41, (Col(&T::a) - db::param<int32_t>)>("truth:col-param", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return sub(I(r.a), I(p)); });
    expr_n<47, (Col(&T::a) + (2 - Col(&T::b)))>("truth:col+(2-col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return add(I(r.a), sub(I(2), I(r.b))); });
    expr_n<53, (Col(&T::a) - (2 - Col(&T::b)))>("truth:col-(2-col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return sub(I(r.a), sub(I(2), I(r.b))); });
    expr_n<59, (Col(&T::a) * (2 - Col(&T::b)))>("truth:col*(2-col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mul(I(r.a), sub(I(2), I(r.b))); });
    expr_n<65, (Col(&T::a) / (2 - Col(&T::b)))>("truth:col/(2-col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return div(I(r.a), sub(I(2), I(r.b))); });
    expr_n<71, (Col(&T::a) % (2 - Col(&T::b)))>("truth:col%(2-col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mod(I(r.a), sub(I(2), I(r.b))); });
    expr_p<77, (Col(&T::a) * db::param<int32_t>)>("truth:col*param", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mul(I(r.a), I(p)); });
    expr_n<83, (Col(&T::a) + (2 * Col(&T::b)))>("truth:col+(2*col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return add(I(r.a), mul(I(2), I(r.b))); });
    expr_n<89, (Col(&T::a) - (2 * Col(&T::b)))>("truth:col-(2*col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return sub(I(r.a), mul(I(2), I(r.b))); });
    expr_n<95, (Col(&T::a) * (2 * Col(&T::b)))>("truth:col*(2*col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mul(I(r.a), mul(I(2), I(r.b))); });
    expr_n<101, (Col(&T::a) / (2 * Col(&T::b)))>("truth:col/(2*col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return div(I(r.a), mul(I(2), I(r.b))); });
    expr_n<107, (Col(&T::a) % (2 * Col(&T::b)))>("truth:col%(2*col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mod(I(r.a), mul(I(2), I(r.b))); });
    expr_p<113, (Col(&T::a) / db::param<int32_t>)>("truth:col/param", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return div(I(r.a), I(p)); });
    expr_n<119, (Col(&T::a) + (2 / Col(&T::b)))>("truth:col+(2/col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return add(I(r.a), div(I(2), I(r.b))); });
    expr_n<125, (Col(&T::a) - (2 / Col(&T::b)))>("truth:col-(2/col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return sub(I(r.a), div(I(2), I(r.b))); });
    expr_n<131, (Col(&T::a) * (2 / Col(&T::b)))>("truth:col*(2/col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mul(I(r.a), div(I(2), I(r.b))); });
    expr_n<137, (Col(&T::a) / (2 / Col(&T::b)))>("truth:col/(2/col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return div(I(r.a), div(I(2), I(r.b))); });
    expr_n<143, (Col(&T::a) % (2 / Col(&T::b)))>("truth:col%(2/col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mod(I(r.a), div(I(2), I(r.b))); });
    expr_p<149, (Col(&T::a) % db::param<int32_t>)>("truth:col%param", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mod(I(r.a), I(p)); });
    expr_n<155, (Col(&T::a) + (2 % Col(&T::b)))>("truth:col+(2%col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return add(I(r.a), mod(I(2), I(r.b))); });
    expr_n<161, (Col(&T::a) - (2 % Col(&T::b)))>("truth:col-(2%col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return sub(I(r.a), mod(I(2), I(r.b))); });
    expr_n<167, (Col(&T::a) * (2 % Col(&T::b)))>("truth:col*(2%col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mul(I(r.a), mod(I(2), I(r.b))); });
    expr_n<173, (Col(&T::a) / (2 % Col(&T::b)))>("truth:col/(2%col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return div(I(r.a), mod(I(2), I(r.b))); });
    expr_n<179, (Col(&T::a) % (2 % Col(&T::b)))>("truth:col%(2%col)", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return mod(I(r.a), mod(I(2), I(r.b))); });
    expr_n<185, (4 != (Col(&T::b) * 2))>("cmp:lit!=cal", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ne(I(4), mul(I(r.b), I(2))); });
    expr_n<191, (0 == Col(&T::a))>("cmp:0==col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return eq(I(0), I(r.a)); });
    expr_n<197, (Col(&T::s) == ""_fs)>("str:col==0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s == std::string("")); });
    expr_n<203, (Col(&T::s) == "''"_fs)>("str:col==3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s == std::string("''")); });
    expr_n<209, (Col(&T::s) == Col(&T::s2))>("str:col==col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s == r.s2); });
    expr_n<215, (0 != Col(&T::a))>("cmp:0!=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ne(I(0), I(r.a)); });
    expr_n<221, (Col(&T::s) != ""_fs)>("str:col!=0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s != std::string("")); });
    expr_n<227, (Col(&T::s) != "''"_fs)>("str:col!=3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s != std::string("''")); });
    expr_n<233, (Col(&T::s) != Col(&T::s2))>("str:col!=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s != r.s2); });
    expr_n<239, (0 < Col(&T::a))>("cmp:0<col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return lt(I(0), I(r.a)); });
    expr_n<245, (Col(&T::s) < ""_fs)>("str:col<0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s < std::string("")); });
    expr_n<251, (Col(&T::s) < "''"_fs)>("str:col<3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s < std::string("''")); });
    expr_n<257, (Col(&T::s) < Col(&T::s2))>("str:col<col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s < r.s2); });
    expr_n<263, (0 <= Col(&T::a))>("cmp:0<=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return le(I(0), I(r.a)); });
    expr_n<269, (Col(&T::s) <= ""_fs)>("str:col<=0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s <= std::string("")); });
    expr_n<275, (Col(&T::s) <= "''"_fs)>("str:col<=3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s <= std::string("''")); });
    expr_n<281, (Col(&T::s) <= Col(&T::s2))>("str:col<=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s <= r.s2); });
    expr_n<287, (0 > Col(&T::a))>("cmp:0>col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return gt(I(0), I(r.a)); });
    expr_n<293, (Col(&T::s) > ""_fs)>("str:col>0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s > std::string("")); });
    expr_n<299, (Col(&T::s) > "''"_fs)>("str:col>3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s > std::string("''")); });
    expr_n<305, (Col(&T::s) > Col(&T::s2))>("str:col>col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s > r.s2); });
    expr_n<311, (0 >= Col(&T::a))>("cmp:0>=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return ge(I(0), I(r.a)); });
    expr_n<317, (Col(&T::s) >= ""_fs)>("str:col>=0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s >= std::string("")); });
    expr_n<323, (Col(&T::s) >= "''"_fs)>("str:col>=3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s >= std::string("''")); });
    expr_n<329, (Col(&T::s) >= Col(&T::s2))>("str:col>=col", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.s >= r.s2); });
    expr_p<335, (Col(&T::a).in<db::param<int32_t>, Col(&T::b), 3>())>("in:param", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(r.a == p || r.a == r.b || r.a == 3); });
    expr_n<341, (Col(&T::s).notLike<"%b%">())>("notlike", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return B(!(r.s.find('b') != std::string::npos || r.s.find('B') != std::string::npos)); });
    expr_n<347, (((Col(&T::x) == 1) && ((1 == Col(&T::y)))) || (!Col(&T::z)))>("log:(0&&1)||2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.x == 1), B(r.y == 1)), B(r.z == 0)); });
    expr_n<353, (((Col(&T::x) == 1) || ((1 == Col(&T::y)))) && (Col(&T::w).in<1, 5>()))>("log:(0||1)&&3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.x == 1), B(r.y == 1)), B(r.w == 1)); });
    expr_n<359, (((Col(&T::x) == 1) || (!Col(&T::z))) || ((1 == Col(&T::y))))>("log:(0||2)||1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.x == 1), B(r.z == 0)), B(r.y == 1)); });
    expr_n<365, (((Col(&T::x) == 1) && (!Col(&T::z))) && ((1 == Col(&T::y))))>("log:(0&&2)&&1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.x == 1), B(r.z == 0)), B(r.y == 1)); });
    expr_n<371, (((Col(&T::x) == 1) && (!Col(&T::z))) || (Col(&T::w).in<1, 5>()))>("log:(0&&2)||3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.x == 1), B(r.z == 0)), B(r.w == 1)); });
    expr_n<377, (((Col(&T::x) == 1) || (Col(&T::w).in<1, 5>())) && ((1 == Col(&T::y))))>("log:(0||3)&&1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.x == 1), B(r.w == 1)), B(r.y == 1)); });
    expr_n<383, (((Col(&T::x) == 1) || (Col(&T::w).in<1, 5>())) || (!Col(&T::z)))>("log:(0||3)||2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.x == 1), B(r.w == 1)), B(r.z == 0)); });
    expr_n<389, (((Col(&T::x) == 1) && (Col(&T::w).in<1, 5>())) && (!Col(&T::z)))>("log:(0&&3)&&2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.x == 1), B(r.w == 1)), B(r.z == 0)); });
    expr_n<395, ((((1 == Col(&T::y))) && (Col(&T::x) == 1)) || (!Col(&T::z)))>("log:(1&&0)||2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.y == 1), B(r.x == 1)), B(r.z == 0)); });
    expr_n<401, ((((1 == Col(&T::y))) || (Col(&T::x) == 1)) && (Col(&T::w).in<1, 5>()))>("log:(1||0)&&3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.y == 1), B(r.x == 1)), B(r.w == 1)); });
    expr_n<407, ((((1 == Col(&T::y))) || (!Col(&T::z))) || (Col(&T::x) == 1))>("log:(1||2)||0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.y == 1), B(r.z == 0)), B(r.x == 1)); });
    expr_n<413, ((((1 == Col(&T::y))) && (!Col(&T::z))) && (Col(&T::x) == 1))>("log:(1&&2)&&0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.y == 1), B(r.z == 0)), B(r.x == 1)); });
    expr_n<419, ((((1 == Col(&T::y))) && (!Col(&T::z))) || (Col(&T::w).in<1, 5>()))>("log:(1&&2)||3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.y == 1), B(r.z == 0)), B(r.w == 1)); });
    expr_n<425, ((((1 == Col(&T::y))) || (Col(&T::w).in<1, 5>())) && (Col(&T::x) == 1))>("log:(1||3)&&0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.y == 1), B(r.w == 1)), B(r.x == 1)); });
    expr_n<431, ((((1 == Col(&T::y))) || (Col(&T::w).in<1, 5>())) || (!Col(&T::z)))>("log:(1||3)||2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.y == 1), B(r.w == 1)), B(r.z == 0)); });
    expr_n<437, ((((1 == Col(&T::y))) && (Col(&T::w).in<1, 5>())) && (!Col(&T::z)))>("log:(1&&3)&&2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.y == 1), B(r.w == 1)), B(r.z == 0)); });
    expr_n<443, (((!Col(&T::z)) && (Col(&T::x) == 1)) || ((1 == Col(&T::y))))>("log:(2&&0)||1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.z == 0), B(r.x == 1)), B(r.y == 1)); });
    expr_n<449, (((!Col(&T::z)) || (Col(&T::x) == 1)) && (Col(&T::w).in<1, 5>()))>("log:(2||0)&&3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.z == 0), B(r.x == 1)), B(r.w == 1)); });
    expr_n<455, (((!Col(&T::z)) || ((1 == Col(&T::y)))) || (Col(&T::x) == 1))>("log:(2||1)||0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.z == 0), B(r.y == 1)), B(r.x == 1)); });
    expr_n<461, (((!Col(&T::z)) && ((1 == Col(&T::y)))) && (Col(&T::x) == 1))>("log:(2&&1)&&0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.z == 0), B(r.y == 1)), B(r.x == 1)); });
    expr_n<467, (((!Col(&T::z)) && ((1 == Col(&T::y)))) || (Col(&T::w).in<1, 5>()))>("log:(2&&1)||3", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.z == 0), B(r.y == 1)), B(r.w == 1)); });
    expr_n<473, (((!Col(&T::z)) || (Col(&T::w).in<1, 5>())) && (Col(&T::x) == 1))>("log:(2||3)&&0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.z == 0), B(r.w == 1)), B(r.x == 1)); });
    expr_n<479, (((!Col(&T::z)) || (Col(&T::w).in<1, 5>())) || ((1 == Col(&T::y))))>("log:(2||3)||1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.z == 0), B(r.w == 1)), B(r.y == 1)); });
    expr_n<485, (((!Col(&T::z)) && (Col(&T::w).in<1, 5>())) && ((1 == Col(&T::y))))>("log:(2&&3)&&1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.z == 0), B(r.w == 1)), B(r.y == 1)); });
    expr_n<491, (((Col(&T::w).in<1, 5>()) && (Col(&T::x) == 1)) || ((1 == Col(&T::y))))>("log:(3&&0)||1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.w == 1), B(r.x == 1)), B(r.y == 1)); });
    expr_n<497, (((Col(&T::w).in<1, 5>()) || (Col(&T::x) == 1)) && (!Col(&T::z)))>("log:(3||0)&&2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.w == 1), B(r.x == 1)), B(r.z == 0)); });
    expr_n<503, (((Col(&T::w).in<1, 5>()) || ((1 == Col(&T::y)))) || (Col(&T::x) == 1))>("log:(3||1)||0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.w == 1), B(r.y == 1)), B(r.x == 1)); });
    expr_n<509, (((Col(&T::w).in<1, 5>()) && ((1 == Col(&T::y)))) && (Col(&T::x) == 1))>("log:(3&&1)&&0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.w == 1), B(r.y == 1)), B(r.x == 1)); });
    expr_n<515, (((Col(&T::w).in<1, 5>()) && ((1 == Col(&T::y)))) || (!Col(&T::z)))>("log:(3&&1)||2", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(B(r.w == 1), B(r.y == 1)), B(r.z == 0)); });
    expr_n<521, (((Col(&T::w).in<1, 5>()) || (!Col(&T::z))) && (Col(&T::x) == 1))>("log:(3||2)&&0", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(orr(B(r.w == 1), B(r.z == 0)), B(r.x == 1)); });
    expr_n<527, (((Col(&T::w).in<1, 5>()) || (!Col(&T::z))) || ((1 == Col(&T::y))))>("log:(3||2)||1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(orr(B(r.w == 1), B(r.z == 0)), B(r.y == 1)); });
    expr_n<533, (((Col(&T::w).in<1, 5>()) && (!Col(&T::z))) && ((1 == Col(&T::y))))>("log:(3&&2)&&1", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(andd(B(r.w == 1), B(r.z == 0)), B(r.y == 1)); });
    expr_n<539, ((Col(&T::x) == 1) || (((1 == Col(&T::y))) || ((!Col(&T::z)) && (Col(&T::w).in<1, 5>()))))>("log4:p||(q||(s&&t))", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), orr(B(r.y == 1), andd(B(r.z == 0), B(r.w == 1)))); });
    expr_n<545, ((Col(&T::x) == 1) || (((1 == Col(&T::y))) && ((!Col(&T::z)) && (Col(&T::w).in<1, 5>()))))>("log4:p||(q&&(s&&t))", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(B(r.x == 1), andd(B(r.y == 1), andd(B(r.z == 0), B(r.w == 1)))); });
    expr_n<551, ((Col(&T::x) == 1) && (((1 == Col(&T::y))) || ((!Col(&T::z)) && (Col(&T::w).in<1, 5>()))))>("log4:p&&(q||(s&&t))", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), orr(B(r.y == 1), andd(B(r.z == 0), B(r.w == 1)))); });
    expr_n<557, ((Col(&T::x) == 1) && (((1 == Col(&T::y))) && ((!Col(&T::z)) && (Col(&T::w).in<1, 5>()))))>("log4:p&&(q&&(s&&t))", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return andd(B(r.x == 1), andd(B(r.y == 1), andd(B(r.z == 0), B(r.w == 1)))); });
    expr_pq<563, ((((Col(&T::a) + 1) * 2 == db::param<int32_t>) && (3 > Col(&T::b))) || (Col(&T::a) != db::param<int32_t>))>("mix:&&||", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V { return orr(andd(eq(mul(add(I(r.a), I(1)), I(2)), I(p)), gt(I(3), I(r.b))), ne(I(r.a), I(q))); });
}
} // namespace vp
void mc_main() { vp::go(); }
