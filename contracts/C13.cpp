// C13: the parameters a condition depends on
#include "vf.h"
#include "expression_evaluator.cpp"
typedef std::vector<std::string> Names;
static std::string Text() { return vf_str(__vf_split(__vf_size(1))); }
// contract of the recursion: sorted, without duplicates
static Names Some()
{
    Names r;
    size_t n = __vf_split(__vf_size(2));
    for (size_t i = 0; i < n; ++i)
        r.push_back(Text());
    if (n == 2)
        VF_REQUIRES(r[0] < r[1]);
    return r;
}
static const TAstNode *Root, *L, *R;
static Names LV, RV;
static std::vector<std::string> Sub(const TAstNode* e)
{
    if (e == nullptr)
        return Names();
    VF_ASSERT(e != Root && (e == L || e == R), "only the operands are visited");
    return e == L ? LV : RV;
}
static bool Has(const Names& v, const std::string& s)
{
    for (const auto& x: v)
        if (x == s)
            return true;
    return false;
}
static std::unique_ptr<TAstNode> Tree(const Names& v) // an expression with exactly these parameters
{
    std::unique_ptr<TAstNode> r;
    for (const auto& s: v) {
        auto n = std::make_unique<TAstNode>(TAstNodeType::Ident, s);
        if (r) {
            auto op = std::make_unique<TAstNode>(TAstNodeType::And, "");
            op->SetLeft(std::move(r));
            op->SetRight(std::move(n));
            r = std::move(op);
        } else
            r = std::move(n);
    }
    return r ? std::move(r) : std::make_unique<TAstNode>(TAstNodeType::Number, "1");
}
VF_HARNESS(node)
{
    LV = Some();
    RV = Some();
    auto type = TAstNodeType(__vf_split(__vf_u8() % (uint8_t(TAstNodeType::Func) + 1)));
    TAstNode n(type, "own");
    bool op = type != TAstNodeType::Ident && type != TAstNodeType::Number, func = type == TAstNodeType::Func;
    if (op) {
        n.SetRight(func ? std::make_unique<TAstNode>(TAstNodeType::Ident, "own") : Tree(RV));
        if (!func)
            n.SetLeft(Tree(LV));
    }
    Root = &n;
    L = n.GetLeft();
    R = n.GetRight();
    if (func)
        RV = {"own"};
    __vf_callee("Expressions::GetDependencies(", (void*)&Sub);
    Names d = Expressions::GetDependencies(&n);
    for (size_t i = 1; i < d.size(); ++i)
        VF_ASSERT(d[i - 1] < d[i], "sorted, every name once");
    if (type == TAstNodeType::Ident)
        VF_ASSERT(d == Names{"own"}, "a parameter depends on itself");
    else if (type == TAstNodeType::Number)
        VF_ASSERT(d.empty(), "a number depends on nothing");
    else {
        if (!func)
            for (const auto& s: LV)
                VF_ASSERT(Has(d, s), "the left operand's parameters");
        for (const auto& s: RV)
            VF_ASSERT(Has(d, s), "the right operand's parameters");
        for (const auto& s: d)
            VF_ASSERT((!func && Has(LV, s)) || Has(RV, s), "nothing else");
    }
    __vf_cover("collected");
}
VF_HARNESS(nothing)
{
    VF_ASSERT(Expressions::GetDependencies(nullptr).empty(), "no expression, no parameters");
    __vf_cover("empty");
}
