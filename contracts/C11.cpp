// C11: evaluation of template conditions
#include "vf.h"
#include "expression_evaluator.cpp"
using std::optional;
typedef optional<int32_t> V;
static V Arb()
{
    bool has = vf_bool();
    int32_t v = int32_t(__vf_u32());
    return has ? V(v) : V();
}
#include "strtol.inc"
struct Params: IParams
{
    V l, r;
    optional<int32_t> Get(const std::string& name) const override
    {
        VF_ASSERT(name == "l" || name == "r", "only parameters the expression names are asked for");
        return name == "l" ? l : r;
    }
};
// the contract of a subexpression: some value, or none if it depends on an undefined parameter
static const TAstNode *L, *R;
static const Params* P;
static const TAstNode* Root;
static V RootValue;
static optional<int32_t> Sub(const TAstNode* e, const IParams& p)
{
    VF_ASSERT(&p == P, "subexpressions see the same parameters");
    if (e == Root)
        return RootValue;
    VF_ASSERT(e == L || e == R, "only the operands are evaluated");
    return e == L ? P->l : P->r;
}
static void* volatile KeepSignature = (void*)&EvalImpl;
// specification of one node
static V Spec(TAstNodeType t, V l, V r)
{
    bool d = l.has_value() && r.has_value();
    int64_t a = l.value_or(0), b = r.value_or(0);
    switch (t) {
        case TAstNodeType::Equal:
            return d && a == b;
        case TAstNodeType::NotEqual:
            return !d || a != b;
        case TAstNodeType::Greater:
            return d && a > b;
        case TAstNodeType::Less:
            return d && a < b;
        case TAstNodeType::GreaterEqual:
            return d && a >= b;
        case TAstNodeType::LessEqual:
            return d && a <= b;
        case TAstNodeType::Or:
            return d && (a != 0 || b != 0);
        case TAstNodeType::And:
            return d && a != 0 && b != 0;
        case TAstNodeType::Ident:
            return l;
        default:
            return r.has_value();
    }
}
VF_HARNESS(node)
{
    Params p;
    p.l = Arb();
    p.r = Arb();
    auto type = TAstNodeType(__vf_split(uint8_t(TAstNodeType::Equal) + __vf_u8() % (uint8_t(TAstNodeType::Func) - uint8_t(TAstNodeType::Equal) + 1)));
    TAstNode n(type, "l");
    if (type != TAstNodeType::Ident) {
        n.SetRight(std::make_unique<TAstNode>(TAstNodeType::Ident, "r"));
        if (type != TAstNodeType::Func)
            n.SetLeft(std::make_unique<TAstNode>(TAstNodeType::Ident, "l"));
    }
    VF_ASSERT(n.GetType() == type && n.GetValue() == "l", "a node keeps its type and text");
    L = n.GetLeft();
    R = n.GetRight();
    P = &p;
    Root = nullptr;
    __vf_callee("(anonymous namespace)::EvalImpl(", (void*)&Sub);
    V v = EvalImpl(&n, p);
    V s = Spec(type, p.l, p.r);
    VF_ASSERT(v == s, "the value of a node follows from those of its operands");
    VF_ASSERT(n.GetLeft() == L && n.GetRight() == R && n.GetType() == type, "evaluation changes nothing");
    Root = &n;
    RootValue = s;
    VF_ASSERT(Expressions::Eval(&n, p) == (s && *s != 0), "the whole expression is true exactly for a defined value other than zero");
    __vf_cover("evaluated");
}
VF_HARNESS(number)
{
    bool neg = vf_bool();
    size_t n = __vf_split(1 + __vf_size(11));
    auto d = vf_vec(n);
    std::string s;
    if (neg)
        s += '-';
    uint64_t v = 0;
    for (size_t i = 0; i < n; ++i) {
        char c = char(__vf_proving() ? d[i] : '0' + d[i] % 10);
        VF_REQUIRES(c >= '0' && c <= '9');
        s += c;
    }
    const char* t = s.c_str();
    while (*t == ' ' || (*t >= '\t' && *t <= '\r')) // (never)
        ++t;
    if (*t == '-' || *t == '+')
        ++t;
    for (; *t >= '0' && *t <= '9'; ++t)
        v = v * 10 + uint64_t(*t - '0');
    VF_REQUIRES(v <= (neg ? uint64_t(1) << 31 : (uint64_t(1) << 31) - 1));
    TAstNode e(TToken(TTokenType::Number, 0, s));
    Params p;
    auto r = EvalImpl(&e, p);
    VF_ASSERT(r && *r == int32_t(neg ? 0 - v : v), "a number is its decimal value");
    __vf_cover("number");
}
VF_HARNESS(nothing)
{
    Params p;
    bool ex = false;
    try {
        Expressions::Eval(nullptr, p);
    } catch (const std::runtime_error&) {
        ex = true;
    }
    VF_ASSERT(ex, "a missing expression is an error");
    TAstNode n(TAstNodeType::And, "");
    ex = false;
    try {
        Expressions::Eval(&n, p);
    } catch (const std::runtime_error&) {
        ex = true;
    }
    VF_ASSERT(ex, "a missing operand is an error");
    __vf_cover("refused");
}
