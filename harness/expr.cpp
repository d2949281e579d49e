// C07, C08: template conditions
#include "symx.h"
#include "expression_evaluator.h"
#include <algorithm>
#include <stdexcept>
#include <unordered_map>

using namespace std;
using namespace Expressions;

static const char* OPS[] = {"==", "!=", ">", "<", ">=", "<=", "||", "&&"};

struct TParam
{
    bool Defined = false;
    int32_t Value = 0;
};
struct TParams: public IParams
{
    TParam P[4];
    mutable bool Unknown = false;
    optional<int32_t> Get(const string& name) const override
    {
        if (name.size() == 1 && name[0] >= 'a' && name[0] <= 'd') {
            auto& p = P[name[0] - 'a'];
            if (p.Defined)
                return p.Value;
            return nullopt;
        }
        Unknown = true;
        return nullopt;
    }
};

// Reference semantics over a token list; written from README.md and the EBNF in the header
struct TVal
{
    bool Def;
    int32_t V;
};
struct TTok
{
    enum
    {
        Open,
        Close,
        Operator,
        Operand
    } Kind;
    int Op = 0;
    TVal Val = {false, 0};
};
static int Prec(int op)
{
    return op >= 2 && op <= 5 ? 4 : op <= 1 ? 3 : op == 7 ? 2 : 1;
}
static bool gUndefLogic;
static TVal Apply(int op, TVal a, TVal b)
{
    bool both = a.Def & b.Def;
    bool r = false;
    switch (op) {
        case 0:
            r = both & (a.V == b.V);
            break;
        case 1:
            r = (!both) | (a.V != b.V);
            break;
        case 2:
            r = both & (a.V > b.V);
            break;
        case 3:
            r = both & (a.V < b.V);
            break;
        case 4:
            r = both & (a.V >= b.V);
            break;
        case 5:
            r = both & (a.V <= b.V);
            break;
        case 6:
            gUndefLogic = gUndefLogic | !both;
            r = (a.V != 0) | (b.V != 0);
            break;
        case 7:
            gUndefLogic = gUndefLogic | !both;
            r = (a.V != 0) & (b.V != 0);
            break;
    }
    return {true, r};
}
static TVal RefExpr(const vector<TTok>& t, size_t& i, int minPrec);
static TVal RefPrimary(const vector<TTok>& t, size_t& i)
{
    if (t[i].Kind == TTok::Open) {
        ++i;
        TVal v = RefExpr(t, i, 0);
        ++i; // closing bracket
        return v;
    }
    return t[i++].Val;
}
static TVal RefExpr(const vector<TTok>& t, size_t& i, int minPrec)
{
    TVal l = RefPrimary(t, i);
    while (i < t.size() && t[i].Kind == TTok::Operator && Prec(t[i].Op) > minPrec) {
        int op = t[i++].Op;
        TVal r = RefExpr(t, i, Prec(op));
        l = Apply(op, l, r);
    }
    return l;
}

// n operands, one or two pairs of brackets
HARNESS h_cond_eval()
{
    size_t n = Pick("n", symx_param("lo", 1), symx_param("hi", 3));
    int kinds = (int)symx_param("kinds", 1), brackets = (int)symx_param("brackets", 1);
    TParams p;
    for (auto& x: p.P) {
        x.Defined = SymBool("defined");
        x.Value = (int32_t)Sym32("value");
    }
    // brackets: opening before operand o1, closing after operand c1; the same for an inner or a following pair
    size_t o1 = 99, c1 = 99, o2 = 99, c2 = 99;
    if (brackets && SymBool("br1")) {
        o1 = Pick("o1", 0, n - 1);
        c1 = Pick("c1", o1, n - 1);
        if (brackets > 1 && SymBool("br2")) {
            o2 = Pick("o2", o1, n - 1);
            c2 = Pick("c2", o2, n - 1);
            symx_assume(o2 > c1 || c2 <= c1);
        }
    }
    string s;
    vector<TTok> t;
    for (size_t i = 0; i < n; ++i) {
        if (i) {
            TTok k;
            k.Kind = TTok::Operator;
            k.Op = (int)Pick("op", 0, 7);
            t.push_back(k);
            s += OPS[k.Op];
        }
        for (int q = (i == o1) + (i == o2); q > 0; --q) {
            TTok k;
            k.Kind = TTok::Open;
            t.push_back(k);
            s += '(';
        }
        TTok k;
        k.Kind = TTok::Operand;
        auto kind = kinds > 1 ? Pick("kind", 0, kinds - 1) : 0;
        if (kind == 0) {
            k.Val = {p.P[i].Defined, p.P[i].Value};
            s += (char)('a' + i);
        } else if (kind == 1) {
            bool neg = SymBool("neg");
            if (neg)
                s += '-';
            int32_t v = 0;
            size_t digits = Pick("digits", 1, symx_param("digits", 2));
            for (size_t d = 0; d < digits; ++d) {
                unsigned x = (unsigned)symx_var("digit", 4);
                symx_assume(x < 10);
                s += (char)('0' + x);
                v = v * 10 + (int32_t)x;
            }
            k.Val = {true, neg ? -v : v};
        } else {
            s += string("isDefined(") + (char)('a' + i) + ")";
            k.Val = {true, p.P[i].Defined};
        }
        t.push_back(k);
        for (int q = (i == c1) + (i == c2); q > 0; --q) {
            TTok c;
            c.Kind = TTok::Close;
            t.push_back(c);
            s += ')';
        }
    }
    gUndefLogic = false;
    size_t pos = 0;
    TVal ref = RefExpr(t, pos, 0);
    symx_assume(!gUndefLogic); // && and || with a parameter that is not set are not documented
    TParser parser;
    auto ast = parser.Parse(s);
    bool r = Eval(ast.get(), p);
    symx_assert(r == (ref.Def && ref.V != 0), "value of the condition");
    symx_assert(!p.Unknown, "only the parameters that occur are asked for");
    symx_observe("r", r);
    symx_reach(n > 1 ? "operators" : "single");
}

// The value of a literal is the decimal number, for the whole 32-bit range
HARNESS h_cond_number()
{
    size_t n = Pick("n", 1, symx_param("hi", 10));
    bool neg = SymBool("neg");
    string s = "a==";
    if (neg)
        s += '-';
    int64_t v = 0;
    if (symx_param("edge", 0)) {
        s += "214748";
        v = 214748;
        n = 4;
    }
    for (size_t i = 0; i < n; ++i) {
        unsigned x = (unsigned)symx_var("digit", 4);
        symx_assume(x < 10);
        s += (char)('0' + x);
        v = v * 10 + x;
    }
    if (neg)
        v = -v;
    if (symx_param("edge", 0))
        symx_assume(v >= INT32_MIN && v <= INT32_MAX);
    TParams p;
    p.P[0].Defined = true;
    p.P[0].Value = (int32_t)Sym32("a");
    TParser parser;
    bool r = Eval(parser.Parse(s).get(), p);
    symx_assert(r == (p.P[0].Value == (int32_t)v), "equality with a literal");
    symx_reach("done");
    symx_observe("r", r);
}

// ---------------------------------------------------------------- C08
static bool Alpha(char c)
{
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}
static bool Digit(char c)
{
    return c >= '0' && c <= '9';
}
// Reference recogniser for the EBNF; collects what must be in the tree (text without brackets) and the names
struct TRef
{
    const string& S;
    size_t I = 0;
    string Flat;
    vector<string> Names;
    bool Ok = true;
    explicit TRef(const string& s): S(s)
    {}
    bool At(char c) const
    {
        return I < S.size() && S[I] == c;
    }
    bool Op()
    {
        if (I + 1 < S.size() && S[I + 1] == '=' && (S[I] == '=' || S[I] == '!' || S[I] == '<' || S[I] == '>')) {
            Flat += S[I];
            Flat += '=';
            I += 2;
            return true;
        }
        if (At('<') || At('>')) {
            Flat += S[I++];
            return true;
        }
        if (I + 1 < S.size() && ((S[I] == '|' && S[I + 1] == '|') || (S[I] == '&' && S[I + 1] == '&'))) {
            Flat += S[I];
            Flat += S[I];
            I += 2;
            return true;
        }
        return false;
    }
    string Ident()
    {
        string r;
        if (I < S.size() && Alpha(S[I]))
            while (I < S.size() && (Alpha(S[I]) || Digit(S[I]) || S[I] == '_'))
                r += S[I++];
        return r;
    }
    void Operand()
    {
        if (At('(')) {
            ++I;
            Cond();
            if (!Ok || !At(')')) {
                Ok = false;
                return;
            }
            ++I;
            return;
        }
        string id = Ident();
        if (!id.empty()) {
            Flat += id;
            if (At('(')) {
                ++I;
                string arg = Ident();
                if (id != "isDefined" || arg.empty() || !At(')')) {
                    Ok = false;
                    return;
                }
                ++I;
                Flat += arg;
                Names.push_back(arg);
            } else
                Names.push_back(id);
            return;
        }
        size_t b = I;
        if (At('-'))
            ++I;
        if (I >= S.size() || !Digit(S[I])) {
            Ok = false;
            return;
        }
        while (I < S.size() && Digit(S[I]))
            ++I;
        Flat.append(S, b, I - b);
    }
    void Cond()
    {
        Operand();
        while (Ok && Op())
            Operand();
    }
    bool Accept()
    {
        Cond();
        return Ok && I == S.size();
    }
};
static void Flatten(const TAstNode* n, string& out, int depth)
{
    if (!n)
        return;
    symx_assert(depth < 64, "the tree is finite");
    Flatten(n->GetLeft(), out, depth + 1);
    switch (n->GetType()) {
        case TAstNodeType::Equal:
            out += "==";
            break;
        case TAstNodeType::NotEqual:
            out += "!=";
            break;
        case TAstNodeType::Greater:
            out += ">";
            break;
        case TAstNodeType::Less:
            out += "<";
            break;
        case TAstNodeType::GreaterEqual:
            out += ">=";
            break;
        case TAstNodeType::LessEqual:
            out += "<=";
            break;
        case TAstNodeType::Or:
            out += "||";
            break;
        case TAstNodeType::And:
            out += "&&";
            break;
        default:
            out += n->GetValue();
    }
    Flatten(n->GetRight(), out, depth + 1);
}
static void CheckText(const string& s)
{
    TRef ref(s);
    bool accept = ref.Accept();
    unique_ptr<TAstNode> ast;
    bool ok = false;
    string error;
    try {
        TParser parser;
        ast = parser.Parse(s);
        ok = true;
    } catch (const std::runtime_error& e) {
        error = e.what();
    }
    symx_assert(ok == accept, "accepted exactly when the text follows the grammar");
    if (ok) {
        symx_assert(ast != nullptr, "an accepted text has a tree");
        string flat;
        Flatten(ast.get(), flat, 0);
        symx_assert(flat == ref.Flat, "the tree holds every token of the text in order");
        auto d = GetDependencies(ast.get());
        for (auto& x: d)
            symx_assert(count(d.begin(), d.end(), x) == 1 && find(ref.Names.begin(), ref.Names.end(), x) != ref.Names.end(),
                        "every dependency is a name of the text, listed once");
        for (auto& x: ref.Names)
            symx_assert(find(d.begin(), d.end(), x) != d.end(), "every name of the text is a dependency");
        symx_reach("accepted");
        symx_observe("deps", d.size());
    } else {
        symx_assert(!error.empty(), "the error is explained");
        symx_reach("rejected");
    }
    symx_observe("ok", ok);
}
HARNESS h_cond_bytes()
{
    string s = SymStr("s", Pick("n", symx_param("lo", 0), symx_param("hi", 4)));
    CheckText(s);
}
HARNESS h_cond_tokens()
{
    static const char* T[] = {"a", "(", ")", "==", "<", "&&", "||", "isDefined", "12", "ab_1", "-"};
    size_t n = Pick("n", symx_param("lo", 1), symx_param("hi", 4));
    string s;
    for (size_t i = 0; i < n; ++i)
        s += T[Pick("t", 0, symx_param("alphabet", 11) - 1)];
    CheckText(s);
}
// isDefined in every position, correct or cut at any place, with one arbitrary byte in any place
HARNESS h_cond_mutated()
{
    static const char* T[] = {"isDefined(a)&&(b==-1)||c>5", "((a<=1))!=isDefined(b)", "a==(isDefined(a)||-2>=a)"};
    string s = T[Pick("t", 0, 2)];
    size_t at = Pick("at", 0, s.size() - 1);
    uint64_t how = Pick("how", 0, 2);
    char c = (char)Sym8("c");
    if (how == 0)
        s[at] = c;
    else if (how == 1)
        s.insert(s.begin() + at, c);
    else
        s.resize(at);
    CheckText(s);
}
