// lagerx: exports the type-checked, template-instantiated program of one
// translation unit as JSON: every function body reachable from code living in
// the "root" path prefixes, with resolved callees, implicit nodes and types.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"

#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;

static std::string g_out;
static std::vector<std::string> g_roots;   // path prefixes whose functions are exported
static std::set<std::string> g_stdfns;     // std functions followed by name
static std::vector<std::string> g_follow;  // extra namespaces followed when called

struct Out
{
    std::string s;
    void raw(llvm::StringRef r) { s.append(r.data(), r.size()); }
    void ch(char c) { s.push_back(c); }
    void num(long long n) { s += std::to_string(n); }
    void str(llvm::StringRef r)
    {
        s.push_back('"');
        for (unsigned char c : r) {
            if (c == '"' || c == '\\') {
                s.push_back('\\');
                s.push_back(c);
            } else if (c < 0x20 || c >= 0x7f) {
                char buf[8];
                snprintf(buf, sizeof buf, "\\u%04x", c);
                s += buf;
            } else
                s.push_back(c);
        }
        s.push_back('"');
    }
};

struct Exporter
{
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::unordered_map<const void*, int> ids;
    int next_id = 1;
    std::unordered_map<const void*, int> type_ids; // canonical QualType opaque ptr
    std::vector<std::string> types;
    std::unordered_map<const CXXRecordDecl*, int> rec_ids;
    std::vector<std::string> recs;
    std::deque<const FunctionDecl*> work;
    std::set<const FunctionDecl*> seen;
    std::vector<std::string> funcs;
    std::set<const VarDecl*> gseen;
    std::vector<std::string> globals;
    std::map<std::string, int> files;
    std::vector<std::string> filelist;

    Exporter(ASTContext& c)
        : C(c)
        , SM(c.getSourceManager())
        , PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword     = true;
        PP.SuppressScope          = false;
        PP.FullyQualifiedName     = true;
        PP.PrintCanonicalTypes    = true;
        PP.AnonymousTagLocations  = true;
    }

    int id(const Decl* d)
    {
        const void* k = d->getCanonicalDecl();
        auto it       = ids.find(k);
        if (it != ids.end())
            return it->second;
        return ids[k] = next_id++;
    }

    std::string fileOf(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l);
        return p.isValid() ? std::string(p.getFilename()) : std::string();
    }
    int fileIdx(const std::string& f)
    {
        auto it = files.find(f);
        if (it != files.end())
            return it->second;
        int i = filelist.size();
        filelist.push_back(f);
        files[f] = i;
        return i;
    }
    void loc(Out& o, SourceLocation l)
    {
        l      = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l);
        if (p.isInvalid()) {
            o.raw("[0,0,0]");
            return;
        }
        o.ch('[');
        o.num(fileIdx(p.getFilename()));
        o.ch(',');
        o.num(p.getLine());
        o.ch(',');
        o.num(p.getColumn());
        o.ch(']');
    }

    bool inRoots(const Decl* d)
    {
        auto f = fileOf(d->getLocation());
        for (auto& r : g_roots)
            if (f.compare(0, r.size(), r) == 0)
                return true;
        return false;
    }
    static std::string topNs(const Decl* d)
    {
        const DeclContext* dc = d->getDeclContext();
        std::string name;
        while (dc && !dc->isTranslationUnit()) {
            if (auto* ns = dyn_cast<NamespaceDecl>(dc))
                name = ns->getNameAsString();
            dc = dc->getParent();
        }
        return name;
    }
    bool follow(const FunctionDecl* f)
    {
        if (inRoots(f))
            return true;
        auto ns = topNs(f);
        if (ns == "std" && f->getIdentifier() && g_stdfns.count(f->getName().str()))
            return true;
        if (auto* c = dyn_cast<CXXConstructorDecl>(f))
            if (ns == "std" && g_stdfns.count("ctor:" + c->getParent()->getNameAsString()))
                return true;
        if (ns == "immer") {
            if (f->getIdentifier() && g_stdfns.count("immer::" + f->getName().str()))
                return true;
            if (auto* m = dyn_cast<CXXMethodDecl>(f))
                if (m->getParent()->isLambda())
                    if (auto* g = dyn_cast_or_null<FunctionDecl>(m->getParent()->getDeclContext()))
                        return follow(g);
        }
        for (auto& n : g_follow)
            if (n == ns)
                return true;
        return false;
    }

    int type(QualType q)
    {
        if (q.isNull())
            return -1;
        q             = q.getCanonicalType();
        const void* k = q.getAsOpaquePtr();
        auto it       = type_ids.find(k);
        if (it != type_ids.end())
            return it->second;
        int i       = types.size();
        type_ids[k] = i;
        types.push_back("");
        Out o;
        o.ch('{');
        o.raw("\"s\":");
        o.str(q.getAsString(PP));
        if (q.isConstQualified())
            o.raw(",\"const\":1");
        auto* t = q.getTypePtr();
        if (auto* p = dyn_cast<PointerType>(t)) {
            o.raw(",\"k\":\"ptr\",\"to\":");
            o.num(type(p->getPointeeType()));
        } else if (auto* r = dyn_cast<LValueReferenceType>(t)) {
            o.raw(",\"k\":\"lref\",\"to\":");
            o.num(type(r->getPointeeType()));
        } else if (auto* r = dyn_cast<RValueReferenceType>(t)) {
            o.raw(",\"k\":\"rref\",\"to\":");
            o.num(type(r->getPointeeType()));
        } else if (auto* r = t->getAsCXXRecordDecl()) {
            o.raw(",\"k\":\"rec\",\"rec\":");
            o.num(record(r));
        } else if (t->isBooleanType())
            o.raw(",\"k\":\"bool\"");
        else if (t->isEnumeralType()) {
            o.raw(",\"k\":\"enum\",\"vals\":[");
            bool first = true;
            if (auto* e = t->getAs<EnumType>()->getDecl()->getDefinition())
                for (auto* c : e->enumerators()) {
                    if (!first)
                        o.raw(",");
                    first = false;
                    o.num(c->getInitVal().getExtValue());
                }
            o.raw("]");
        } else if (t->isIntegerType())
            o.raw(",\"k\":\"int\"");
        else if (t->isFloatingType())
            o.raw(",\"k\":\"float\"");
        else if (t->isVoidType())
            o.raw(",\"k\":\"void\"");
        else if (t->isMemberPointerType())
            o.raw(",\"k\":\"memptr\"");
        else if (t->isFunctionType())
            o.raw(",\"k\":\"fn\"");
        else if (t->isNullPtrType())
            o.raw(",\"k\":\"nullptr\"");
        else if (auto* a = dyn_cast<ConstantArrayType>(t)) {
            o.raw(",\"k\":\"array\",\"to\":");
            o.num(type(a->getElementType()));
            o.raw(",\"n\":");
            o.num(a->getSize().getZExtValue());
        } else
            o.raw(",\"k\":\"other\"");
        o.ch('}');
        types[i] = o.s;
        return i;
    }

    std::string qname(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        auto pp = PP;
        d->printQualifiedName(os, pp);
        return os.str();
    }

    void targs(Out& o, llvm::ArrayRef<TemplateArgument> as)
    {
        o.ch('[');
        bool first = true;
        for (auto& a : as) {
            if (a.getKind() == TemplateArgument::Pack) {
                for (auto& b : a.pack_elements()) {
                    if (!first)
                        o.ch(',');
                    first = false;
                    targ(o, b);
                }
                continue;
            }
            if (!first)
                o.ch(',');
            first = false;
            targ(o, a);
        }
        o.ch(']');
    }
    void targ(Out& o, const TemplateArgument& a)
    {
        switch (a.getKind()) {
        case TemplateArgument::Type:
            o.raw("{\"t\":");
            o.num(type(a.getAsType()));
            o.ch('}');
            break;
        case TemplateArgument::Integral:
            o.raw("{\"i\":");
            o.num(a.getAsIntegral().getExtValue());
            o.ch('}');
            break;
        default: {
            std::string s;
            llvm::raw_string_ostream os(s);
            a.print(PP, os, true);
            o.raw("{\"o\":");
            o.str(os.str());
            o.ch('}');
        }
        }
    }

    int record(const CXXRecordDecl* r)
    {
        r       = r->getCanonicalDecl();
        auto it = rec_ids.find(r);
        if (it != rec_ids.end())
            return it->second;
        int i      = recs.size();
        rec_ids[r] = i;
        recs.push_back("");
        Out o;
        o.raw("{\"name\":");
        o.str(r->isLambda() ? std::string("lambda") : qname(r));
        o.raw(",\"full\":");
        o.str(C.getRecordType(r).getAsString(PP));
        o.raw(",\"loc\":");
        loc(o, r->getLocation());
        if (auto* ts = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
            o.raw(",\"targs\":");
            targs(o, ts->getTemplateArgs().asArray());
        }
        auto* d = r->getDefinition();
        if (d) {
            o.raw(",\"def\":1");
            if (d->isLambda()) {
                o.raw(",\"lambda\":1,\"callops\":[");
                bool first = true;
                auto add   = [&](const FunctionDecl* f) {
                    if (!first)
                        o.ch(',');
                    first = false;
                    o.num(id(f));
                };
                if (auto* op = d->getLambdaCallOperator()) {
                    if (auto* ft = op->getDescribedFunctionTemplate()) {
                        for (auto* sp : ft->specializations())
                            add(sp);
                    } else
                        add(op);
                }
                o.raw("],\"mutable\":");
                o.num(d->getLambdaCallOperator() &&
                              !d->getLambdaCallOperator()->isConst()
                          ? 1
                          : 0);
                o.raw(",\"caps\":[");
                first      = true;
                auto field = d->field_begin();
                for (auto& cap : d->captures()) {
                    if (!first)
                        o.ch(',');
                    first = false;
                    o.ch('{');
                    if (cap.capturesThis()) {
                        o.raw("\"this\":1,\"byref\":");
                        o.num(cap.getCaptureKind() == LCK_This ? 1 : 0);
                    } else if (cap.capturesVariable()) {
                        o.raw("\"var\":");
                        o.num(id(cap.getCapturedVar()));
                        o.raw(",\"name\":");
                        o.str(cap.getCapturedVar()->getNameAsString());
                        o.raw(",\"byref\":");
                        o.num(cap.getCaptureKind() == LCK_ByRef ? 1 : 0);
                    } else
                        o.raw("\"other\":1");
                    if (field != d->field_end()) {
                        o.raw(",\"t\":");
                        o.num(type((*field)->getType()));
                        ++field;
                    }
                    o.ch('}');
                }
                o.ch(']');
            } else {
                o.raw(",\"fields\":[");
                bool first = true;
                for (auto* f : d->fields()) {
                    if (!first)
                        o.ch(',');
                    first = false;
                    o.raw("{\"name\":");
                    o.str(f->getNameAsString());
                    o.raw(",\"id\":");
                    o.num(id(f));
                    o.raw(",\"t\":");
                    o.num(type(f->getType()));
                    if (f->isMutable())
                        o.raw(",\"mutable\":1");
                    if (f->getAccess() == AS_public)
                        o.raw(",\"public\":1");
                    if (f->hasInClassInitializer() && f->getInClassInitializer() &&
                        !f->getInClassInitializer()->isInstantiationDependent() &&
                        (inRoots(r) )) {
                        o.raw(",\"init\":");
                        expr(o, f->getInClassInitializer());
                    }
                    o.ch('}');
                }
                o.raw("],\"bases\":[");
                first = true;
                for (auto& b : d->bases()) {
                    auto* br = b.getType()->getAsCXXRecordDecl();
                    if (!br)
                        continue;
                    if (!first)
                        o.ch(',');
                    first = false;
                    o.num(record(br));
                }
                o.raw("],\"methods\":[");
                first = true;
                if (inRoots(r))
                    for (auto* m : d->methods()) {
                        if (!first)
                            o.ch(',');
                        first = false;
                        o.raw("{\"name\":");
                        o.str(m->getNameAsString());
                        o.raw(",\"id\":");
                        o.num(id(m));
                        if (m->isVirtual())
                            o.raw(",\"virtual\":1");
                        if (m->isPureVirtual())
                            o.raw(",\"pure\":1");
                        if (m->isDeleted())
                            o.raw(",\"deleted\":1");
                        if (m->isDefaulted())
                            o.raw(",\"defaulted\":1");
                        if (m->isConst())
                            o.raw(",\"const\":1");
                        if (m->isStatic())
                            o.raw(",\"static\":1");
                        if (m->getAccess() == AS_public)
                            o.raw(",\"public\":1");
                        if (m->size_overridden_methods()) {
                            o.raw(",\"over\":[");
                            bool f2 = true;
                            for (auto* om : m->overridden_methods()) {
                                if (!f2)
                                    o.ch(',');
                                f2 = false;
                                o.num(id(om));
                            }
                            o.ch(']');
                        }
                        o.ch('}');
                    }
                o.ch(']');
                if (auto* dd = d->getDestructor()) {
                    if (dd->isUserProvided()) {
                        o.raw(",\"dtor\":");
                        o.num(id(dd));
                        push(dd);
                    }
                }
                if (d->isPolymorphic())
                    o.raw(",\"poly\":1");
                if (d->isAbstract())
                    o.raw(",\"abstract\":1");
                if (d->isUnion())
                    o.raw(",\"union\":1");
                if (d->isAggregate())
                    o.raw(",\"aggregate\":1");
            }
        }
        o.ch('}');
        recs[i] = o.s;
        return i;
    }

    void push(const FunctionDecl* f)
    {
        if (!f)
            return;
        const FunctionDecl* def = nullptr;
        if (!f->hasBody(def) || !def)
            return;
        if (def->isDependentContext())
            return;
        def = def;
        if (!seen.insert(def->getCanonicalDecl()).second)
            return;
        if (!follow(def)) {
            // remembered as body-less reference
            seen.erase(def->getCanonicalDecl());
            return;
        }
        work.push_back(def);
    }

    // ---- function reference ----
    std::map<int, std::string> fnrefs;
    int fnref(const FunctionDecl* f)
    {
        int i = id(f);
        if (fnrefs.count(i))
            return i;
        fnrefs[i] = "";
        Out o;
        o.raw("{\"name\":");
        o.str(qname(f));
        o.raw(",\"loc\":");
        loc(o, f->getLocation());
        o.raw(",\"ret\":");
        o.num(type(f->getReturnType()));
        o.raw(",\"params\":[");
        bool first = true;
        for (auto* p : f->parameters()) {
            if (!first)
                o.ch(',');
            first = false;
            o.raw("{\"id\":");
            o.num(id(p));
            o.raw(",\"name\":");
            o.str(p->getNameAsString());
            o.raw(",\"t\":");
            o.num(type(p->getType()));
            o.ch('}');
        }
        o.ch(']');
        if (f->isVariadic())
            o.raw(",\"variadic\":1");
        if (auto* ta = f->getTemplateSpecializationArgs()) {
            o.raw(",\"targs\":");
            targs(o, ta->asArray());
        }
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o.raw(",\"rec\":");
            o.num(record(m->getParent()));
            if (m->isStatic())
                o.raw(",\"static\":1");
            if (m->isVirtual())
                o.raw(",\"virtual\":1");
            if (m->isPureVirtual())
                o.raw(",\"pure\":1");
            if (m->isConst())
                o.raw(",\"const\":1");
            if (m->getRefQualifier() == RQ_RValue)
                o.raw(",\"rq\":1");
            if (m->size_overridden_methods()) {
                o.raw(",\"over\":[");
                bool f2 = true;
                for (auto* om : m->overridden_methods()) {
                    if (!f2)
                        o.ch(',');
                    f2 = false;
                    o.num(fnref(om));
                }
                o.ch(']');
            }
        }
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            o.raw(",\"ctor\":1");
            if (c->isCopyConstructor())
                o.raw(",\"copy\":1");
            if (c->isMoveConstructor())
                o.raw(",\"move\":1");
            if (c->isDefaultConstructor())
                o.raw(",\"default\":1");
            if (c->isExplicit())
                o.raw(",\"explicit\":1");
        }
        if (isa<CXXDestructorDecl>(f))
            o.raw(",\"dtor\":1");
        if (isa<CXXConversionDecl>(f))
            o.raw(",\"conv\":1");
        if (f->isDefaulted())
            o.raw(",\"defaulted\":1");
        if (f->isDeleted())
            o.raw(",\"deleted\":1");
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->isCopyAssignmentOperator())
                o.raw(",\"copyassign\":1");
            if (m->isMoveAssignmentOperator())
                o.raw(",\"moveassign\":1");
        }
        if (f->isNoReturn())
            o.raw(",\"noreturn\":1");
        if (auto* pt = f->getType()->getAs<FunctionProtoType>())
            if (!isUnresolvedExceptionSpec(pt->getExceptionSpecType()) &&
                pt->isNothrow())
                o.raw(",\"noexcept\":1");
        if (f->isInlined())
            o.raw(",\"inline\":1");
        if (inRoots(f))
            o.raw(",\"root\":1");
        o.ch('}');
        fnrefs[i] = o.s;
        push(f);
        return i;
    }

    void function(const FunctionDecl* f)
    {
        int i = fnref(f);
        Out o;
        o.raw("{\"id\":");
        o.num(i);
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            o.raw(",\"inits\":[");
            bool first = true;
            for (auto* in : c->inits()) {
                if (!first)
                    o.ch(',');
                first = false;
                o.ch('{');
                if (in->isAnyMemberInitializer()) {
                    o.raw("\"field\":");
                    o.num(id(in->getAnyMember()));
                    o.raw(",\"name\":");
                    o.str(in->getAnyMember()->getNameAsString());
                    o.raw(",\"ft\":");
                    o.num(type(in->getAnyMember()->getType()));
                } else if (in->isBaseInitializer()) {
                    o.raw("\"base\":");
                    o.num(type(QualType(in->getBaseClass(), 0)));
                } else if (in->isDelegatingInitializer())
                    o.raw("\"delegating\":1");
                o.raw(",\"e\":");
                expr(o, in->getInit());
                o.ch('}');
            }
            o.ch(']');
        }
        o.raw(",\"body\":");
        stmt(o, f->getBody());
        o.ch('}');
        funcs.push_back(o.s);
    }

    void exprs(Out& o, llvm::ArrayRef<const Expr*> es)
    {
        o.ch('[');
        for (size_t i = 0; i < es.size(); ++i) {
            if (i)
                o.ch(',');
            expr(o, es[i]);
        }
        o.ch(']');
    }

    void head(Out& o, const char* k, const Expr* e)
    {
        o.raw("{\"k\":\"");
        o.raw(k);
        o.raw("\",\"t\":");
        o.num(type(e->getType()));
        if (e->isLValue())
            o.raw(",\"lv\":1");
        else if (e->isXValue())
            o.raw(",\"xv\":1");
        o.raw(",\"l\":");
        loc(o, e->getBeginLoc());
    }

    bool tryConst(Out& o, const Expr* e)
    {
        auto t = e->getType();
        if (t.isNull() || e->isTypeDependent() || e->isValueDependent())
            return false;
        if (!e->isPRValue())
            return false;
        if (!(t->isBooleanType() || t->isIntegerType() ))
            return false;
        if (isa<CallExpr>(e) || isa<CXXConstructExpr>(e)) {
            // only fold calls into non-root code (hana, traits)
            if (auto* ce = dyn_cast<CallExpr>(e)) {
                auto* fd = ce->getDirectCallee();
                if (!fd || inRoots(fd))
                    return false;
                if (!fd->isConstexpr())
                    return false;
            } else
                return false;
        }
        Expr::EvalResult r;
        if (!e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) || r.HasSideEffects)
            return false;
        auto v = r.Val.getInt();
        head(o, t->isBooleanType() ? "bool" : "int", e);
        o.raw(",\"v\":");
        if (v.isSigned() || v.getActiveBits() < 63)
            o.num(v.getExtValue());
        else
            o.raw(std::to_string(v.getZExtValue()));
        o.ch('}');
        return true;
    }

    void global(const VarDecl* v)
    {
        v = v->getCanonicalDecl();
        if (!gseen.insert(v).second)
            return;
        const VarDecl* d = v->getDefinition() ? v->getDefinition() : v;
        Out o;
        o.raw("{\"id\":");
        o.num(id(v));
        o.raw(",\"name\":");
        o.str(qname(v));
        o.raw(",\"t\":");
        o.num(type(v->getType()));
        o.raw(",\"loc\":");
        loc(o, v->getLocation());
        if (d->hasInit() && d->getInit() && !d->getInit()->isValueDependent() && v->getType().isConstQualified() &&
            v->getType()->isIntegralOrEnumerationType())
            if (auto* val = d->evaluateValue(); val && val->isInt()) {
                o.raw(",\"cv\":");
                llvm::SmallString<32> txt;
                val->getInt().toString(txt);
                o.raw(std::string(txt.str()));
            }
        if (d->hasInit() && d->getInit() && !d->getInit()->isInstantiationDependent() &&
            (inRoots(d) || topNs(d) == "zug")) {
            o.raw(",\"init\":");
            expr(o, d->getInit());
        }
        o.ch('}');
        globals.push_back(o.s);
    }

    void expr(Out& o, const Expr* e)
    {
        if (!e) {
            o.raw("null");
            return;
        }
        // transparent nodes
        if (auto* p = dyn_cast<ParenExpr>(e))
            return expr(o, p->getSubExpr());
        if (auto* p = dyn_cast<ConstantExpr>(e))
            return expr(o, p->getSubExpr());
        if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
            return expr(o, p->getReplacement());
        if (auto* p = dyn_cast<CXXRewrittenBinaryOperator>(e))
            return expr(o, p->getSemanticForm());
        if (auto* p = dyn_cast<CXXDefaultArgExpr>(e))
            return expr(o, p->getExpr());
        if (auto* p = dyn_cast<CXXDefaultInitExpr>(e))
            return expr(o, p->getExpr());
        if (auto* p = dyn_cast<OpaqueValueExpr>(e))
            if (p->getSourceExpr())
                return expr(o, p->getSourceExpr());
        if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) {
            head(o, "stdinit", e);
            o.raw(",\"c\":[");
            expr(o, p->getSubExpr());
            o.raw("]}");
            return;
        }
        if (tryConst(o, e))
            return;
        if (auto* p = dyn_cast<ExprWithCleanups>(e)) {
            head(o, "cleanups", e);
            o.raw(",\"c\":[");
            expr(o, p->getSubExpr());
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) {
            head(o, "mat", e);
            o.raw(",\"ext\":");
            o.num(p->getExtendingDecl() ? id(p->getExtendingDecl()) : 0);
            o.raw(",\"sid\":");
            o.num(next_id++);
            o.raw(",\"c\":[");
            expr(o, p->getSubExpr());
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) {
            head(o, "bindtemp", e);
            o.raw(",\"c\":[");
            expr(o, p->getSubExpr());
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<CastExpr>(e)) {
            head(o, "cast", e);
            o.raw(",\"ck\":");
            o.str(p->getCastKindName());
            if (isa<ExplicitCastExpr>(p))
                o.raw(",\"explicit\":1");
            if (p->getCastKind() == CK_UserDefinedConversion ||
                p->getCastKind() == CK_ConstructorConversion)
                if (auto* cf = dyn_cast_or_null<FunctionDecl>(
                        p->getConversionFunction())) {
                    o.raw(",\"fn\":");
                    o.num(fnref(cf));
                }
            o.raw(",\"c\":[");
            expr(o, p->getSubExpr());
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<IntegerLiteral>(e)) {
            head(o, "int", e);
            o.raw(",\"v\":");
            o.raw(llvm::toString(p->getValue(), 10, e->getType()->isSignedIntegerType()));
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<CXXBoolLiteralExpr>(e)) {
            head(o, "bool", e);
            o.raw(p->getValue() ? ",\"v\":1}" : ",\"v\":0}");
            return;
        }
        if (auto* p = dyn_cast<StringLiteral>(e)) {
            head(o, "str", e);
            o.raw(",\"v\":");
            o.str(p->isOrdinary() ? p->getBytes() : llvm::StringRef("<wide>"));
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<CharacterLiteral>(e)) {
            head(o, "int", e);
            o.raw(",\"v\":");
            o.num(p->getValue());
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<FloatingLiteral>(e)) {
            head(o, "float", e);
            o.raw(",\"v\":");
            o.str(std::to_string(p->getValueAsApproximateDouble()));
            o.ch('}');
            return;
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
            head(o, "null", e);
            o.ch('}');
            return;
        }
        if (isa<CXXThisExpr>(e)) {
            head(o, "this", e);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<DeclRefExpr>(e)) {
            auto* d = p->getDecl();
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                head(o, "fnref", e);
                o.raw(",\"fn\":");
                o.num(fnref(f));
                o.ch('}');
                return;
            }
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                head(o, "int", e);
                o.raw(",\"v\":");
                o.num(ec->getInitVal().getExtValue());
                o.raw(",\"name\":");
                o.str(qname(ec));
                o.ch('}');
                return;
            }
            head(o, "ref", e);
            o.raw(",\"d\":");
            o.num(id(d));
            o.raw(",\"name\":");
            o.str(d->getNameAsString());
            if (p->refersToEnclosingVariableOrCapture())
                o.raw(",\"cap\":1");
            if (auto* v = dyn_cast<VarDecl>(d)) {
                if (isa<ParmVarDecl>(v))
                    o.raw(",\"param\":1");
                if (v->hasGlobalStorage()) {
                    o.raw(",\"global\":1");
                    if (v->isStaticLocal())
                        o.raw(",\"staticlocal\":1");
                    global(v);
                }
            } else if (auto* b = dyn_cast<BindingDecl>(d)) {
                (void) b;
                o.raw(",\"binding\":1");
            } else if (isa<FieldDecl>(d) ) {
                o.raw(",\"field\":1");
            }
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<MemberExpr>(e)) {
            auto* d = p->getMemberDecl();
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                head(o, "mfnref", e);
                o.raw(",\"fn\":");
                o.num(fnref(f));
                o.raw(",\"c\":[");
                expr(o, p->getBase());
                o.raw("]}");
                return;
            }
            if (auto* v = dyn_cast<VarDecl>(d)) {
                head(o, "ref", e);
                o.raw(",\"global\":1,\"d\":");
                o.num(id(v));
                o.raw(",\"name\":");
                o.str(v->getNameAsString());
                o.ch('}');
                global(v);
                return;
            }
            head(o, "member", e);
            o.raw(",\"d\":");
            o.num(id(d));
            o.raw(",\"name\":");
            o.str(d->getNameAsString());
            if (p->isArrow())
                o.raw(",\"arrow\":1");
            if (auto* fd = dyn_cast<FieldDecl>(d)) {
                if (auto* pr = dyn_cast<CXXRecordDecl>(fd->getParent())) {
                    o.raw(",\"rec\":");
                    o.num(record(pr));
                }
                o.raw(",\"ft\":");
                o.num(type(fd->getType()));
            }
            o.raw(",\"c\":[");
            expr(o, p->getBase());
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<CXXMemberCallExpr>(e)) {
            head(o, "mcall", e);
            auto* md = p->getMethodDecl();
            if (md) {
                o.raw(",\"fn\":");
                o.num(fnref(md));
                auto* me = dyn_cast<MemberExpr>(p->getCallee()->IgnoreParens());
                bool qual = me && me->hasQualifier();
                if (md->isVirtual() && !qual)
                    o.raw(",\"virtual\":1");
                if (me && me->isArrow())
                    o.raw(",\"arrow\":1");
            }
            o.raw(",\"sid\":");
            o.num(next_id++);
            o.raw(",\"obj\":");
            if (md)
                expr(o, p->getImplicitObjectArgument());
            else
                expr(o, p->getCallee());
            o.raw(",\"c\":");
            std::vector<const Expr*> as(p->arg_begin(), p->arg_end());
            exprs(o, as);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<CXXOperatorCallExpr>(e)) {
            auto* fd = p->getDirectCallee();
            auto* md = dyn_cast_or_null<CXXMethodDecl>(fd);
            std::vector<const Expr*> as(p->arg_begin(), p->arg_end());
            if (md && !md->isStatic()) {
                head(o, "mcall", e);
                o.raw(",\"op\":1,\"fn\":");
                o.num(fnref(md));
                if (md->isVirtual())
                    o.raw(",\"virtual\":1");
                o.raw(",\"sid\":");
                o.num(next_id++);
                o.raw(",\"obj\":");
                expr(o, as[0]);
                as.erase(as.begin());
            } else {
                head(o, "call", e);
                o.raw(",\"op\":1");
                if (fd) {
                    o.raw(",\"fn\":");
                    o.num(fnref(fd));
                }
                o.raw(",\"sid\":");
                o.num(next_id++);
            }
            o.raw(",\"c\":");
            exprs(o, as);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<CallExpr>(e)) {
            head(o, "call", e);
            if (auto* fd = p->getDirectCallee()) {
                o.raw(",\"fn\":");
                o.num(fnref(fd));
            } else {
                o.raw(",\"fe\":");
                expr(o, p->getCallee());
            }
            o.raw(",\"sid\":");
            o.num(next_id++);
            o.raw(",\"c\":");
            std::vector<const Expr*> as(p->arg_begin(), p->arg_end());
            exprs(o, as);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<CXXConstructExpr>(e)) {
            head(o, "ctor", e);
            o.raw(",\"fn\":");
            o.num(fnref(p->getConstructor()));
            if (p->isListInitialization())
                o.raw(",\"list\":1");
            if (p->isElidable())
                o.raw(",\"elide\":1");
            if (isa<CXXTemporaryObjectExpr>(p))
                o.raw(",\"tempobj\":1");
            o.raw(",\"sid\":");
            o.num(next_id++);
            o.raw(",\"c\":");
            std::vector<const Expr*> as(p->arg_begin(), p->arg_end());
            exprs(o, as);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            head(o, "inhctor", e);
            o.raw(",\"fn\":");
            o.num(fnref(p->getConstructor()));
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<InitListExpr>(e)) {
            if (p->isSyntacticForm() && p->getSemanticForm())
                p = p->getSemanticForm();
            head(o, "initlist", e);
            std::vector<const Expr*> as(p->inits().begin(), p->inits().end());
            o.raw(",\"c\":");
            exprs(o, as);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<CXXParenListInitExpr>(e)) {
            head(o, "initlist", e);
            std::vector<const Expr*> as(p->getInitExprs().begin(),
                                        p->getInitExprs().end());
            o.raw(",\"c\":");
            exprs(o, as);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<LambdaExpr>(e)) {
            auto* r = p->getLambdaClass();
            head(o, "lambda", e);
            o.raw(",\"rec\":");
            o.num(record(r));
            auto* op = r->getLambdaCallOperator();
            if (auto* ft = op->getDescribedFunctionTemplate()) {
                for (auto* sp : ft->specializations())
                    fnref(sp);
            } else
                fnref(op);
            o.raw(",\"caps\":[");
            bool first = true;
            auto ci    = p->capture_init_begin();
            for (auto cap = p->capture_begin(); cap != p->capture_end();
                 ++cap, ++ci) {
                if (!first)
                    o.ch(',');
                first = false;
                expr(o, *ci);
            }
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<BinaryOperator>(e)) {
            head(o, "bin", e);
            o.raw(",\"op\":");
            o.str(p->getOpcodeStr());
            o.raw(",\"c\":[");
            expr(o, p->getLHS());
            o.ch(',');
            expr(o, p->getRHS());
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<UnaryOperator>(e)) {
            head(o, "un", e);
            o.raw(",\"op\":");
            o.str(UnaryOperator::getOpcodeStr(p->getOpcode()));
            if (p->isPostfix())
                o.raw(",\"post\":1");
            o.raw(",\"c\":[");
            expr(o, p->getSubExpr());
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<AbstractConditionalOperator>(e)) {
            head(o, "cond", e);
            o.raw(",\"c\":[");
            expr(o, p->getCond());
            o.ch(',');
            expr(o, p->getTrueExpr());
            o.ch(',');
            expr(o, p->getFalseExpr());
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<CXXNewExpr>(e)) {
            head(o, "new", e);
            o.raw(",\"at\":");
            o.num(type(p->getAllocatedType()));
            o.raw(",\"sid\":");
            o.num(next_id++);
            o.raw(",\"place\":");
            o.num(p->getNumPlacementArgs());
            o.raw(",\"c\":[");
            expr(o, p->getInitializer());
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<CXXDeleteExpr>(e)) {
            head(o, "delete", e);
            o.raw(",\"c\":[");
            expr(o, p->getArgument());
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<CXXThrowExpr>(e)) {
            head(o, "throw", e);
            o.raw(",\"c\":[");
            if (p->getSubExpr())
                expr(o, p->getSubExpr());
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<ArraySubscriptExpr>(e)) {
            head(o, "subscript", e);
            o.raw(",\"c\":[");
            expr(o, p->getLHS());
            o.ch(',');
            expr(o, p->getRHS());
            o.raw("]}");
            return;
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
            head(o, "zeroinit", e);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<StmtExpr>(e)) {
            head(o, "stmtexpr", e);
            o.raw(",\"s\":");
            stmt(o, p->getSubStmt());
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<CXXTypeidExpr>(e)) {
            head(o, "typeid", e);
            if (p->isTypeOperand()) {
                o.raw(",\"of\":");
                o.num(type(p->getTypeOperand(C)));
            } else {
                o.raw(",\"e\":");
                expr(o, p->getExprOperand());
            }
            o.ch('}');
            return;
        }
        // generic fallback: children expressions
        head(o, "other", e);
        o.raw(",\"cls\":");
        o.str(e->getStmtClassName());
        o.raw(",\"c\":[");
        bool first = true;
        for (auto* ch : e->children())
            if (auto* ce = dyn_cast_or_null<Expr>(ch)) {
                if (!first)
                    o.ch(',');
                first = false;
                expr(o, ce);
            }
        o.raw("]}");
    }

    void var(Out& o, const VarDecl* v)
    {
        o.raw("{\"id\":");
        o.num(id(v));
        o.raw(",\"name\":");
        o.str(v->getNameAsString());
        o.raw(",\"t\":");
        o.num(type(v->getType()));
        o.raw(",\"l\":");
        loc(o, v->getLocation());
        if (v->isStaticLocal() && !v->isConstexpr())
            o.raw(",\"static\":1");
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            o.raw(",\"bindings\":[");
            bool first = true;
            for (auto* b : dd->bindings()) {
                if (!first)
                    o.ch(',');
                first = false;
                o.raw("{\"id\":");
                o.num(id(b));
                o.raw(",\"name\":");
                o.str(b->getNameAsString());
                o.raw(",\"e\":");
                if (auto* hv = b->getHoldingVar()) {
                    o.raw("{\"k\":\"hold\",\"v\":");
                    var(o, hv);
                    o.ch('}');
                } else
                    expr(o, b->getBinding());
                o.ch('}');
            }
            o.ch(']');
        }
        o.raw(",\"init\":");
        expr(o, v->getInit());
        o.ch('}');
    }

    void shead(Out& o, const char* k, const Stmt* s)
    {
        o.raw("{\"k\":\"");
        o.raw(k);
        o.raw("\",\"l\":");
        loc(o, s->getBeginLoc());
    }

    void stmt(Out& o, const Stmt* s)
    {
        if (!s) {
            o.raw("null");
            return;
        }
        if (auto* e = dyn_cast<Expr>(s)) {
            shead(o, "expr", s);
            o.raw(",\"e\":");
            expr(o, e);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<CompoundStmt>(s)) {
            shead(o, "block", s);
            o.raw(",\"s\":[");
            bool first = true;
            for (auto* c : p->body()) {
                if (!first)
                    o.ch(',');
                first = false;
                stmt(o, c);
            }
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<DeclStmt>(s)) {
            shead(o, "decl", s);
            o.raw(",\"vars\":[");
            bool first = true;
            for (auto* d : p->decls())
                if (auto* v = dyn_cast<VarDecl>(d)) {
                    if (!first)
                        o.ch(',');
                    first = false;
                    var(o, v);
                }
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<IfStmt>(s)) {
            shead(o, "if", s);
            if (p->isConstexpr())
                o.raw(",\"constexpr\":1");
            o.raw(",\"init\":");
            stmt(o, p->getInit());
            o.raw(",\"var\":");
            if (p->getConditionVariable())
                var(o, p->getConditionVariable());
            else
                o.raw("null");
            o.raw(",\"cond\":");
            expr(o, p->getCond());
            o.raw(",\"then\":");
            stmt(o, p->getThen());
            o.raw(",\"else\":");
            stmt(o, p->getElse());
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<ForStmt>(s)) {
            shead(o, "for", s);
            o.raw(",\"init\":");
            stmt(o, p->getInit());
            o.raw(",\"var\":");
            if (p->getConditionVariable())
                var(o, p->getConditionVariable());
            else
                o.raw("null");
            o.raw(",\"cond\":");
            expr(o, p->getCond());
            o.raw(",\"inc\":");
            expr(o, p->getInc());
            o.raw(",\"body\":");
            stmt(o, p->getBody());
            o.raw(",\"sid\":");
            o.num(next_id++);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<WhileStmt>(s)) {
            shead(o, "while", s);
            o.raw(",\"var\":");
            if (p->getConditionVariable())
                var(o, p->getConditionVariable());
            else
                o.raw("null");
            o.raw(",\"cond\":");
            expr(o, p->getCond());
            o.raw(",\"body\":");
            stmt(o, p->getBody());
            o.raw(",\"sid\":");
            o.num(next_id++);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<DoStmt>(s)) {
            shead(o, "do", s);
            o.raw(",\"cond\":");
            expr(o, p->getCond());
            o.raw(",\"body\":");
            stmt(o, p->getBody());
            o.raw(",\"sid\":");
            o.num(next_id++);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<CXXForRangeStmt>(s)) {
            shead(o, "rfor", s);
            o.raw(",\"init\":");
            stmt(o, p->getInit());
            o.raw(",\"range\":");
            stmt(o, p->getRangeStmt());
            o.raw(",\"begin\":");
            stmt(o, p->getBeginStmt());
            o.raw(",\"end\":");
            stmt(o, p->getEndStmt());
            o.raw(",\"cond\":");
            expr(o, p->getCond());
            o.raw(",\"inc\":");
            expr(o, p->getInc());
            o.raw(",\"loopvar\":");
            stmt(o, p->getLoopVarStmt());
            o.raw(",\"body\":");
            stmt(o, p->getBody());
            o.raw(",\"sid\":");
            o.num(next_id++);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<ReturnStmt>(s)) {
            shead(o, "return", s);
            o.raw(",\"e\":");
            expr(o, p->getRetValue());
            o.ch('}');
            return;
        }
        if (isa<BreakStmt>(s)) {
            shead(o, "break", s);
            o.ch('}');
            return;
        }
        if (isa<ContinueStmt>(s)) {
            shead(o, "continue", s);
            o.ch('}');
            return;
        }
        if (isa<NullStmt>(s)) {
            shead(o, "nop", s);
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<SwitchStmt>(s)) {
            shead(o, "switch", s);
            o.raw(",\"init\":");
            stmt(o, p->getInit());
            o.raw(",\"cond\":");
            expr(o, p->getCond());
            o.raw(",\"body\":");
            stmt(o, p->getBody());
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<CaseStmt>(s)) {
            shead(o, "case", s);
            o.raw(",\"e\":");
            expr(o, p->getLHS());
            o.raw(",\"s\":");
            stmt(o, p->getSubStmt());
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<DefaultStmt>(s)) {
            shead(o, "default", s);
            o.raw(",\"s\":");
            stmt(o, p->getSubStmt());
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<CXXTryStmt>(s)) {
            shead(o, "try", s);
            o.raw(",\"body\":");
            stmt(o, p->getTryBlock());
            o.raw(",\"handlers\":[");
            for (unsigned i = 0; i < p->getNumHandlers(); ++i) {
                if (i)
                    o.ch(',');
                auto* h = p->getHandler(i);
                o.raw("{\"var\":");
                if (h->getExceptionDecl())
                    var(o, h->getExceptionDecl());
                else
                    o.raw("null");
                o.raw(",\"t\":");
                o.num(h->getExceptionDecl() ? type(h->getCaughtType()) : -1);
                o.raw(",\"body\":");
                stmt(o, h->getHandlerBlock());
                o.ch('}');
            }
            o.raw("]}");
            return;
        }
        if (auto* p = dyn_cast<AttributedStmt>(s))
            return stmt(o, p->getSubStmt());
        if (auto* p = dyn_cast<LabelStmt>(s)) {
            shead(o, "label", s);
            o.raw(",\"name\":");
            o.str(p->getName());
            o.raw(",\"s\":");
            stmt(o, p->getSubStmt());
            o.ch('}');
            return;
        }
        if (auto* p = dyn_cast<GotoStmt>(s)) {
            shead(o, "goto", s);
            o.raw(",\"name\":");
            o.str(p->getLabel()->getName());
            o.ch('}');
            return;
        }
        shead(o, "otherstmt", s);
        o.raw(",\"cls\":");
        o.str(s->getStmtClassName());
        o.ch('}');
    }

    std::vector<std::string> nsdecls; // namespace-scope root decl summary

    void walk(const DeclContext* dc, int depth)
    {
        for (auto* d : dc->decls())
            walkDecl(d, depth);
    }
    void walkDecl(const Decl* d, int depth)
    {
        if (depth > 60)
            return;
        if (auto* ns = dyn_cast<NamespaceDecl>(d)) {
            walk(ns, depth + 1);
            return;
        }
        if (auto* ls = dyn_cast<LinkageSpecDecl>(d)) {
            walk(ls, depth + 1);
            return;
        }
        if (auto* ct = dyn_cast<ClassTemplateDecl>(d)) {
            if (ct->getCanonicalDecl() != ct)
                return;
            for (auto* sp : ct->specializations())
                if (sp->getSpecializationKind() != TSK_ExplicitSpecialization)
                    walkRec(sp, depth + 1);
            return;
        }
        if (auto* ft = dyn_cast<FunctionTemplateDecl>(d)) {
            if (ft->getCanonicalDecl() != ft)
                return;
            for (auto* sp : ft->specializations())
                addFn(sp);
            return;
        }
        if (auto* vt = dyn_cast<VarTemplateDecl>(d)) {
            for (auto* sp : vt->specializations())
                if (inRoots(sp) && !sp->getType()->isDependentType())
                    global(sp);
            return;
        }
        if (auto* r = dyn_cast<CXXRecordDecl>(d)) {
            if (isa<ClassTemplatePartialSpecializationDecl>(r))
                return;
            walkRec(r, depth);
            return;
        }
        if (auto* f = dyn_cast<FunctionDecl>(d)) {
            addFn(f);
            return;
        }
        if (auto* v = dyn_cast<VarDecl>(d)) {
            if (inRoots(v) && !v->getType()->isDependentType())
                global(v);
            return;
        }
    }
    void walkRec(const CXXRecordDecl* r, int depth)
    {
        auto* d = r->getDefinition();
        if (!d || d->isDependentContext() || d->isLambda())
            return;
        if (d != r && r->getDefinition() != r)
            return;
        if (inRoots(d))
            record(d);
        for (auto* m : d->decls())
            walkDecl(m, depth + 1);
    }
    void addFn(const FunctionDecl* f)
    {
        if (f->isDependentContext())
            return;
        if (!inRoots(f))
            return;
        fnref(f);
    }

    void run()
    {
        walk(C.getTranslationUnitDecl(), 0);
        while (!work.empty()) {
            auto* f = work.front();
            work.pop_front();
            function(f);
        }
        std::ofstream out(g_out);
        out << "{\"types\":[";
        for (size_t i = 0; i < types.size(); ++i)
            out << (i ? ",\n" : "") << types[i];
        out << "],\n\"records\":[";
        for (size_t i = 0; i < recs.size(); ++i)
            out << (i ? ",\n" : "") << recs[i];
        out << "],\n\"globals\":[";
        for (size_t i = 0; i < globals.size(); ++i)
            out << (i ? ",\n" : "") << globals[i];
        out << "],\n\"fnrefs\":{";
        bool first = true;
        for (auto& p : fnrefs) {
            out << (first ? "" : ",\n") << "\"" << p.first << "\":" << p.second;
            first = false;
        }
        out << "},\n\"functions\":[";
        for (size_t i = 0; i < funcs.size(); ++i)
            out << (i ? ",\n" : "") << funcs[i];
        out << "],\n\"files\":[";
        for (size_t i = 0; i < filelist.size(); ++i) {
            Out o;
            o.str(filelist[i]);
            out << (i ? ",\n" : "") << o.s;
        }
        out << "]}\n";
    }
};

struct Consumer : ASTConsumer
{
    CompilerInstance& CI;
    Consumer(CompilerInstance& ci)
        : CI(ci)
    {}
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (CI.getDiagnostics().hasErrorOccurred())
            return;
        Exporter ex(C);
        ex.run();
    }
};

struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI,
                                                   StringRef) override
    {
        return std::make_unique<Consumer>(CI);
    }
};

int main(int argc, char** argv)
{
    // lagerx OUT SRC -r root... -f ns... -- flags...
    g_out           = argv[1];
    std::string src = argv[2];
    std::vector<std::string> flags;
    int i = 3;
    for (; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--") {
            ++i;
            break;
        }
        if (a == "-r")
            g_roots.push_back(argv[++i]);
        else if (a == "-F")
            g_stdfns.insert(argv[++i]);
        else if (a == "-f")
            g_follow.push_back(argv[++i]);
    }
    for (; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {src});
    struct F : tooling::FrontendActionFactory
    {
        std::unique_ptr<FrontendAction> create() override
        {
            return std::make_unique<Action>();
        }
    } f;
    return tool.run(&f);
}
