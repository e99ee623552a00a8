// The tree debugger over opaque actions, models, reducers and effects.
#include "first.hpp"
#include <optional>
#include <lager/debug/tree_debugger.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/store.hpp>
#include "opaque.hpp"
namespace W {
using M  = Val<0>;   // model
using Ac = Val<1>;   // action
struct Dep { Dep(const Dep&); Dep(Dep&&); };
using Deps   = lager::deps<Dep>;
using Plain  = Fn<M, M, Ac>;
using EffD   = lager::effect<Ac, Deps>;
using Effect = Fn<std::pair<M, EffD>, M, Ac>;
using Result = Fn<lager::result<M, Ac, Deps>, M, Ac>;
template <template <class, class, class> class D>
struct Of
{
    using debugger = D<Ac, M, Deps>;
    using model    = typename debugger::model;
    using action   = typename debugger::action;
    using result   = typename debugger::result_t;
};
// one step of a debugger D over a reducer of type R
#define STEPS(name, D, R) \
    Of<D>::result act_##name(R r, Of<D>::model m, Ac a) { return D<Ac, M, Deps>::update(r, m, Of<D>::action{a}); } \
    Of<D>::result goto_##name(R r, Of<D>::model m, D<Ac, M, Deps>::goto_action a) { return D<Ac, M, Deps>::update(r, m, Of<D>::action{a}); } \
    Of<D>::result undo_##name(R r, Of<D>::model m, D<Ac, M, Deps>::undo_action a) { return D<Ac, M, Deps>::update(r, m, Of<D>::action{a}); } \
    Of<D>::result redo_##name(R r, Of<D>::model m, D<Ac, M, Deps>::redo_action a) { return D<Ac, M, Deps>::update(r, m, Of<D>::action{a}); } \
    Of<D>::result pause_##name(R r, Of<D>::model m, D<Ac, M, Deps>::pause_action a) { return D<Ac, M, Deps>::update(r, m, Of<D>::action{a}); } \
    Of<D>::result resume_##name(R r, Of<D>::model m, D<Ac, M, Deps>::resume_action a) { return D<Ac, M, Deps>::update(r, m, Of<D>::action{a}); }
#define VIEWS(name, D) \
    const M& current_##name(const Of<D>::model& m) { return m; } \
    Of<D>::model initial_##name(M i) { return Of<D>::model{i}; } \
    auto lookup_##name(const Of<D>::model& m, D<Ac, M, Deps>::cursor_t c) { return m.lookup(c); } \
    auto summary_##name(const Of<D>::model& m) { return m.summary(); }
STEPS(tree_plain, lager::tree_debugger, Plain)
STEPS(tree_effect, lager::tree_debugger, Effect)
STEPS(tree_result, lager::tree_debugger, Result)
VIEWS(tree, lager::tree_debugger)
bool check_tree(const Of<lager::tree_debugger>::model& m, lager::tree_debugger<Ac, M, Deps>::cursor_t c) { return m.check(c); }
void append_tree(Of<lager::tree_debugger>::model& m, const Ac& a, const M& n) { m.append(a, n); }
}
