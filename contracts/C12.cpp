// C12: template conditions are parsed as the grammar says
#include "vf.h"
#include <algorithm>
#include "expression_evaluator.cpp"
typedef TTokenType T;
static bool Digit(char c) { return c >= '0' && c <= '9'; }
static bool Letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static const size_t N = size_t(1) << 30;
// ---------------------------------------------------------------- lexer
struct Lex
{
    std::string s;
    TLexer l;
    size_t k;
    Lex()
    {
        s = vf_str(1 + __vf_size(N));
        k = __vf_index();
        if (!__vf_proving())
            k %= s.size();
        VF_REQUIRES(k < s.size());
        l.Start = s.begin();
        l.Pos = l.Start + k;
        l.End = s.end();
    }
    size_t Pos() const { return l.Pos - l.Start; }
    bool Is(size_t i, char c) const { return i < s.size() && s[i] == c; }
};
VF_HARNESS(operators)
{
    Lex x;
    char c = x.s[x.k];
    bool eq = x.Is(x.k + 1, '='), twice = x.Is(x.k + 1, c), error = false;
    size_t n = 1;
    T t = T::EOL; // none
    switch (c) {
        case '=':
            t = T::Equal, n = 2, error = !eq;
            break;
        case '!':
            t = T::NotEqual, n = 2, error = !eq;
            break;
        case '<':
            t = eq ? T::LessEqual : T::Less, n = 1 + eq;
            break;
        case '>':
            t = eq ? T::GreaterEqual : T::Greater, n = 1 + eq;
            break;
        case '|':
            t = T::Or, n = 2, error = !twice;
            break;
        case '&':
            t = T::And, n = 2, error = !twice;
            break;
        case '(':
            t = T::LeftBr;
            break;
        case ')':
            t = T::RightBr;
            break;
    }
    std::optional<TToken> r;
    bool ex = false;
    try {
        r = x.l.GetOpOrBracket();
    } catch (const std::runtime_error&) {
        ex = true;
    }
    VF_ASSERT(ex == error, "exactly an incomplete operator is refused");
    if (!ex) {
        VF_ASSERT(r.has_value() == (t != T::EOL), "operators and brackets are recognised");
        if (r) {
            VF_ASSERT(r->Type == t && r->Value.empty() && r->Pos == x.k, "the operator");
            VF_ASSERT(x.Pos() == x.k + n, "the longest operator is taken");
        } else
            VF_ASSERT(x.Pos() == x.k, "nothing is skipped");
    }
    __vf_cover("operator");
}
VF_HARNESS(number)
{
    Lex x;
    bool neg = x.s[x.k] == '-';
    size_t b = x.k + neg;
    bool some = b < x.s.size() && Digit(x.s[b]);
    size_t e = b;
    __vf_unroll(0);
    std::optional<TToken> r;
    bool ex = false;
    try {
        r = x.l.GetNumber();
    } catch (const std::runtime_error&) {
        ex = true;
    }
    VF_ASSERT(ex == (neg && !some), "exactly a minus without a number is refused");
    if (ex)
        return;
    VF_ASSERT(r.has_value() == some, "a number is recognised");
    if (!r) {
        VF_ASSERT(x.Pos() == x.k, "nothing is skipped");
        return;
    }
    e = x.Pos();
    VF_ASSERT(e > b && e <= x.s.size() && (e == x.s.size() || !Digit(x.s[e])), "a number ends where no digit follows");
    VF_ASSERT(r->Type == T::Number && r->Pos == x.k, "the token");
    VF_ASSERT(r->Value.size() == e - x.k, "the text of the number");
    __vf_cover("number");
    size_t i = __vf_index();
    VF_REQUIRES(i < e - x.k);
    VF_ASSERT(i < neg || Digit(x.s[x.k + i]), "nothing but digits");
    VF_ASSERT(r->Value[i] == x.s[x.k + i], "the text of the number");
}
VF_HARNESS(identifier)
{
    Lex x;
    bool some = Letter(x.s[x.k]);
    __vf_unroll(0);
    auto r = x.l.GetIdent();
    VF_ASSERT(r.has_value() == some, "an identifier starts with a letter");
    if (!r) {
        VF_ASSERT(x.Pos() == x.k, "nothing is skipped");
        return;
    }
    auto part = [](char c) { return Letter(c) || Digit(c) || c == '_'; };
    size_t e = x.Pos();
    VF_ASSERT(e > x.k && e <= x.s.size() && (e == x.s.size() || !part(x.s[e])), "an identifier is taken as a whole");
    VF_ASSERT(r->Type == T::Ident && r->Pos == x.k, "the token");
    VF_ASSERT(r->Value.size() == e - x.k, "the text of the identifier");
    __vf_cover("identifier");
    size_t i = __vf_index();
    VF_REQUIRES(i < e - x.k);
    VF_ASSERT(part(x.s[x.k + i]), "nothing but letters, digits and underscores");
    VF_ASSERT(r->Value[i] == x.s[x.k + i], "the text of the identifier");
}
// The whole lexer: contracts of the three parts; any number of tokens up to the bound.
static const size_t MaxTokens = 4;
static TLexer* Lx;
static size_t Given, Pos0[MaxTokens + 1];
static bool Failed;
static T Types[MaxTokens];
static uint8_t Stage; // how many parts have refused the current position
static std::optional<TToken> Part(TLexer* l, uint8_t stage)
{
    VF_ASSERT(l == Lx && l->Pos != l->End, "tokens are read only while there is text");
    VF_ASSERT(Stage == stage && Pos0[Given] == size_t(l->Pos - l->Start), "every part is asked once for every position");
    Stage = stage + 1;
    if (vf_bool()) {
        Failed = Stage == 3;
        return std::nullopt;
    }
    Stage = 0;
    size_t e = __vf_size(N);
    if (!__vf_proving())
        e = Pos0[Given] + 1 + e % (l->End - l->Pos);
    VF_REQUIRES(Given < MaxTokens && e > Pos0[Given] && e <= size_t(l->End - l->Start));
    T t = stage == 0 ? T::Equal : stage == 1 ? T::Number : T::Ident;
    TToken r(t, l->Pos - l->Start, "x");
    l->Pos = l->Start + e;
    Types[Given++] = t;
    Pos0[Given] = e;
    return r;
}
static std::optional<TToken> Op(TLexer* l) { return Part(l, 0); }
static std::optional<TToken> Num(TLexer* l) { return Part(l, 1); }
static std::optional<TToken> Id(TLexer* l) { return Part(l, 2); }
VF_HARNESS(tokens)
{
    std::string s = vf_str(__vf_size(N));
    TLexer l;
    Lx = &l;
    Given = Pos0[0] = Stage = 0;
    Failed = false;
    __vf_callee("Expressions::TLexer::GetOpOrBracket(", (void*)&Op);
    __vf_callee("Expressions::TLexer::GetNumber(", (void*)&Num);
    __vf_callee("Expressions::TLexer::GetIdent(", (void*)&Id);
    std::vector<TToken> r;
    bool ex = false;
    try {
        r = l.GetTokens(s);
    } catch (const std::runtime_error&) {
        ex = true;
    }
    VF_ASSERT(ex == Failed, "exactly text that is no token is refused");
    if (ex) {
        __vf_cover("refused");
        return;
    }
    VF_ASSERT(Pos0[Given] == s.size() && r.size() == Given + 1, "all text is read");
    for (size_t i = 0; i < Given; ++i)
        VF_ASSERT(r[i].Type == Types[i] && r[i].Pos == Pos0[i] && r[i].Value == "x", "all tokens, in order");
    VF_ASSERT(r[Given].Type == T::EOL && r[Given].Pos == s.size(), "the end of the text is the last token");
    __vf_cover("tokens");
}
// ---------------------------------------------------------------- parser
// An arbitrary sequence of tokens that ends with the end of the text.
struct Tok
{
    std::vector<TToken> v;
    TParser p;
    Tok(size_t n, bool names = true)
    {
        for (size_t i = 0; i < n; ++i)
            v.emplace_back(T(__vf_u8() % uint8_t(T::EOL)), i, names && vf_bool() ? "isDefined" : "x");
        v.emplace_back(T::EOL, n);
        p.Token = v.cbegin();
    }
    size_t Pos() const { return p.Token - v.cbegin(); }
    T At(size_t i) const { return i < v.size() ? v[i].Type : T::EOL; }
};
static Tok* Toks;
static TAstNode* Inner;
static size_t InnerBegin, InnerEnd;
static bool InnerFails;
// contract of a nested expression: it takes some tokens, or refuses
static std::unique_ptr<TAstNode> Nested(TParser* p)
{
    VF_ASSERT(p == &Toks->p && Inner == nullptr, "one nested expression");
    InnerBegin = Toks->Pos();
    InnerFails = vf_bool();
    if (InnerFails)
        throw std::runtime_error("nested");
    InnerEnd = InnerBegin + 1 + __vf_split(__vf_size(2));
    VF_REQUIRES(InnerEnd < Toks->v.size());
    p->Token = Toks->v.cbegin() + InnerEnd;
    auto r = std::make_unique<TAstNode>(TAstNodeType::Ident, "nested");
    Inner = r.get();
    return r;
}
VF_HARNESS(operand)
{
    Tok t(__vf_split(__vf_size(5)));
    Toks = &t;
    Inner = nullptr;
    InnerFails = false;
    InnerBegin = InnerEnd = 0;
    __vf_callee("Expressions::TParser::ParseExpression(", (void*)&Nested);
    std::unique_ptr<TAstNode> r;
    bool ex = false;
    try {
        r = t.p.ParseOperand();
    } catch (const std::runtime_error&) {
        ex = true;
    }
    T a = t.At(0), b = t.At(1), c = t.At(2), d = t.At(3);
    if (a == T::Number || (a == T::Ident && b != T::LeftBr)) {
        VF_ASSERT(!ex && t.Pos() == 1, "a number or parameter is an operand");
        VF_ASSERT(r->GetType() == (a == T::Number ? TAstNodeType::Number : TAstNodeType::Ident) && r->GetValue() == t.v[0].Value, "the operand");
        VF_ASSERT(!r->GetLeft() && !r->GetRight(), "it has no operands of its own");
        __vf_cover("simple");
    } else if (a == T::Ident) {
        bool ok = t.v[0].Value == "isDefined" && c == T::Ident && d == T::RightBr;
        VF_ASSERT(ex == !ok, "exactly isDefined(parameter) is a function call");
        if (ok) {
            VF_ASSERT(t.Pos() == 4 && r->GetType() == TAstNodeType::Func && r->GetValue() == "isDefined" && !r->GetLeft(), "the call");
            VF_ASSERT(r->GetRight() && r->GetRight()->GetType() == TAstNodeType::Ident && r->GetRight()->GetValue() == t.v[2].Value, "its argument");
            __vf_cover("call");
        }
    } else if (a != T::LeftBr) {
        VF_ASSERT(ex, "an operator, a right bracket or the end is no operand");
        __vf_cover("refused");
    } else if (__vf_proving()) {
        bool ok = !InnerFails && InnerBegin == 1 && t.v[InnerEnd].Type == T::RightBr;
        VF_ASSERT(InnerBegin == 1, "brackets contain an expression");
        VF_ASSERT(ex == !ok, "exactly an expression followed by a right bracket is accepted");
        VF_ASSERT(ex || (r.get() == Inner && t.Pos() == InnerEnd + 1), "the value of the brackets");
        __vf_cover("brackets");
    }
}
// Operators between operands.
static int Prio(TAstNodeType t) // binding strength in C
{
    switch (t) {
        case TAstNodeType::Or:
            return 1;
        case TAstNodeType::And:
            return 2;
        case TAstNodeType::Equal:
        case TAstNodeType::NotEqual:
            return 3;
        case TAstNodeType::Number:
        case TAstNodeType::Ident:
        case TAstNodeType::Func:
            return 9;
        default:
            return 4;
    }
}
static const size_t MaxNodes = 11;
static const TAstNode* Seq[MaxNodes];
static size_t SeqN, SeqI;
// the tree reads as the sequence, and every operator's operands bind tighter (the left one possibly equally tight)
static void Check(const TAstNode* n, int left, int right)
{
    VF_ASSERT(n != nullptr, "no operand is missing");
    int p = Prio(n->GetType());
    VF_ASSERT(p >= left && p >= right, "tighter binding operators are applied first, equal ones from left to right");
    if (p == 9 && !n->GetLeft() && !n->GetRight()) {
        VF_ASSERT(SeqI < SeqN && Seq[SeqI++] == n, "all operands and operators, in order");
        return;
    }
    Check(n->GetLeft(), p, 0);
    VF_ASSERT(SeqI < SeqN && Seq[SeqI++] == n, "all operands and operators, in order");
    Check(n->GetRight(), 0, p + 1);
}
template<size_t ops, size_t kinds> static void Tree(const TAstNodeType (&kind)[kinds])
{
    size_t n = 2 * __vf_split(__vf_size(ops)) + 1;
    __vf_unroll(64);
    std::vector<std::unique_ptr<TAstNode>> v;
    for (size_t i = 0; i < n; ++i) {
        auto t = TAstNodeType::Number;
        if (i & 1) {
            size_t k = __vf_size(kinds - 1);
            t = kind[__vf_split(k)];
        }
        v.push_back(std::make_unique<TAstNode>(t, ""));
        Seq[i] = v[i].get();
    }
    SeqN = n;
    SeqI = 0;
    auto r = TreeByPriority(v.begin(), v.end());
    Check(r.get(), 0, 0);
    VF_ASSERT(SeqI == n, "nothing is lost");
    __vf_cover("tree");
}
typedef TAstNodeType A;
VF_HARNESS(precedence) { Tree<3>({A::Equal, A::NotEqual, A::Greater, A::Less, A::GreaterEqual, A::LessEqual, A::Or, A::And}); }
VF_HARNESS(precedence_long) { Tree<5>({A::NotEqual, A::LessEqual, A::Or, A::And}); }
// A condition: operands and operators alternate until no operator follows (ParseOperand through its contract).
static bool IsOp(T t) { return uint8_t(t) >= uint8_t(T::Equal) && uint8_t(t) <= uint8_t(T::And); }
static std::vector<TAstNode*> Operands;
static std::vector<size_t> Ends;
static bool OperandFails;
static std::unique_ptr<TAstNode> Operand(TParser* p)
{
    VF_ASSERT(p == &Toks->p && !OperandFails, "operands are read from the tokens");
    size_t b = Toks->Pos();
    VF_ASSERT(b == (Ends.empty() ? 0 : Ends.back() + 1), "an operand follows each operator");
    if (vf_bool()) {
        OperandFails = true;
        throw std::runtime_error("operand");
    }
    size_t e = b + 1 + __vf_split(__vf_size(1));
    VF_REQUIRES(e < Toks->v.size());
    p->Token = Toks->v.cbegin() + e;
    Ends.push_back(e);
    auto r = std::make_unique<TAstNode>(TAstNodeType::Number, "");
    Operands.push_back(r.get());
    return r;
}
static const TAstNodeType Kind[] = {A::Number, A::Number, A::Number, A::Equal, A::NotEqual, A::Greater, A::Less, A::GreaterEqual, A::LessEqual, A::Or, A::And};
VF_HARNESS(condition)
{
    Tok t(__vf_split(__vf_size(5)), false);
    Toks = &t;
    Operands.clear();
    Ends.clear();
    OperandFails = false;
    __vf_callee("Expressions::TParser::ParseOperand(", (void*)&Operand);
    std::unique_ptr<TAstNode> r;
    bool ex = false;
    try {
        r = t.p.ParseCondition();
    } catch (const std::runtime_error&) {
        ex = true;
    }
    if (!__vf_proving())
        return;
    VF_ASSERT(ex == OperandFails, "refused only if an operand is");
    if (ex)
        return;
    size_t n = Operands.size();
    VF_ASSERT(n > 0 && t.Pos() == Ends[n - 1] && !IsOp(t.v[t.Pos()].Type), "the condition ends where no operator follows");
    // the tree's operators in order
    SeqN = 0;
    const TAstNode* x = r.get();
    struct Walk
    {
        static void In(const TAstNode* n, const std::vector<TToken>& v)
        {
            if (n->GetLeft())
                In(n->GetLeft(), v);
            if (n->GetType() == A::Number)
                VF_ASSERT((SeqN & 1) == 0 && SeqN / 2 < Operands.size() && Operands[SeqN / 2] == n, "the operands in order");
            else
                VF_ASSERT((SeqN & 1) == 1 && SeqN / 2 < Operands.size() && n->GetType() == Kind[uint8_t(v[Ends[SeqN / 2]].Type)], "the operators in order");
            ++SeqN;
            if (n->GetRight())
                In(n->GetRight(), v);
        }
    };
    Walk::In(x, t.v);
    VF_ASSERT(SeqN == 2 * n - 1, "everything is in the tree");
    __vf_cover("condition");
}
// A whole text: everything must belong to one expression.
static std::vector<TToken> GivenTokens(TLexer*, const std::string&) { return Toks->v; }
static std::unique_ptr<TAstNode> Whole(TParser* p)
{
    InnerFails = vf_bool();
    if (InnerFails)
        throw std::runtime_error("nested");
    InnerEnd = __vf_split(1 + __vf_size(3));
    VF_REQUIRES(InnerEnd < Toks->v.size());
    VF_ASSERT(p->Token->Pos == 0, "parsing starts with the first token");
    p->Token += InnerEnd;
    auto r = std::make_unique<TAstNode>(TAstNodeType::Ident, "nested");
    Inner = r.get();
    return r;
}
VF_HARNESS(whole)
{
    if (!__vf_proving())
        return;
    Tok t(__vf_split(__vf_size(4)), false);
    Toks = &t;
    __vf_callee("Expressions::TLexer::GetTokens(", (void*)&GivenTokens);
    __vf_callee("Expressions::TParser::ParseExpression(", (void*)&Whole);
    TParser p;
    std::unique_ptr<TAstNode> r;
    bool ex = false;
    try {
        r = p.Parse("x");
    } catch (const std::runtime_error&) {
        ex = true;
    }
    bool ok = !InnerFails && t.v[InnerEnd].Type == T::EOL;
    VF_ASSERT(ex == !ok, "exactly text that is an expression as a whole is accepted");
    VF_ASSERT(ex || r.get() == Inner, "the result is the expression's tree");
    __vf_cover("whole");
}
// Cross-check of all parts together on the compiled code: a random tree, printed, is parsed into the same tree.
#ifdef VF_NATIVE
static std::unique_ptr<TAstNode> Random(int depth)
{
    static const char* names[] = {"a", "isDefined", "B_1", "x9", "q_"};
    static const char* numbers[] = {"0", "17", "-5", "2147483647", "-0042"};
    uint8_t k = __vf_u8();
    if (depth == 0 || k % 4 == 0) {
        if (k / 4 % 3 == 0)
            return std::make_unique<TAstNode>(A::Number, numbers[k / 12 % 5]);
        if (k / 4 % 3 == 1)
            return std::make_unique<TAstNode>(A::Ident, names[k / 12 % 5]);
        auto f = std::make_unique<TAstNode>(A::Func, "isDefined");
        f->SetRight(std::make_unique<TAstNode>(A::Ident, names[k / 12 % 5]));
        return f;
    }
    auto n = std::make_unique<TAstNode>(TAstNodeType(uint8_t(A::Equal) + k / 4 % 8), "");
    n->SetLeft(Random(depth - 1));
    n->SetRight(Random(depth - 1));
    return n;
}
static std::string Print(const TAstNode* n, int left, int right)
{
    static const char* ops[] = {"", "==", "!=", ">", "<", ">=", "<=", "||", "&&"};
    if (n->GetType() == A::Func)
        return "isDefined(" + n->GetRight()->GetValue() + ")";
    int p = Prio(n->GetType());
    std::string s = p == 9 ? n->GetValue() : Print(n->GetLeft(), p, 0) + ops[int(n->GetType())] + Print(n->GetRight(), 0, p + 1);
    bool br = p < left || p < right || __vf_u8() % 8 == 0;
    return br ? "(" + s + ")" : s;
}
static bool Same(const TAstNode* a, const TAstNode* b)
{
    if (!a || !b)
        return a == b;
    return a->GetType() == b->GetType() && (Prio(a->GetType()) < 9 || a->GetValue() == b->GetValue()) && Same(a->GetLeft(), b->GetLeft()) &&
           Same(a->GetRight(), b->GetRight());
}
#endif
VF_HARNESS(text)
{
#ifdef VF_NATIVE
    auto n = Random(5);
    auto s = Print(n.get(), 0, 0);
    TParser p;
    try {
        VF_ASSERT(Same(p.Parse(s).get(), n.get()), "a printed expression is parsed into its tree");
    } catch (const std::runtime_error& e) {
        VF_ASSERT(false, "a printed expression is accepted");
    }
    // broken somewhere: refused, or an expression again
    size_t i = __vf_size(s.size()), k = __vf_size(2);
    uint8_t what = __vf_u8() % 6;
    s = what == 5 ? s.substr(0, i) : s.substr(0, i) + "(&=a1"[what] + s.substr(std::min(s.size(), i + k));
    try {
        auto t = p.Parse(s);
        VF_ASSERT(std::count(s.begin(), s.end(), '(') == std::count(s.begin(), s.end(), ')'), "brackets are closed");
        auto u = p.Parse(Print(t.get(), 0, 0));
        VF_ASSERT(Same(t.get(), u.get()), "what is accepted is an expression");
    } catch (const std::runtime_error& e) {
    }
#endif
    __vf_cover("text");
}
