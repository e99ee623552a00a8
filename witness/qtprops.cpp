// Properties of Qt objects over readers and cursors.
#include "first.hpp"
#include <QObject>
#include <lager/extra/qt.hpp>
#include <lager/state.hpp>
namespace W {
struct T
{
    T(const T&);
    T(T&&);
    T& operator=(const T&);
    T& operator=(T&&);
    bool operator==(const T&) const;
    bool operator!=(const T&) const;
};
struct Q : QObject
{
    Q(lager::reader<T> r, lager::cursor<T> c, T k)
        : LAGER_QT(konst){k}
        , LAGER_QT(rd){r}
        , LAGER_QT(wr){c}
    {}
    LAGER_QT_CONST(T, konst)
    LAGER_QT_READER(T, rd);
    LAGER_QT_CURSOR(T, wr);
};
void make(lager::reader<T> r, lager::cursor<T> c, T k) { new Q{r, c, k}; }
const T& read_konst(const Q& q) { return q.konst(); }
const T& read_rd(const Q& q) { return q.rd(); }
const T& read_wr(const Q& q) { return q.wr(); }
void write_wr(Q& q, const T& v) { q.setwr(v); }
const T& plain_reader(const lager::reader<T>& r) { return r.get(); }
const T& plain_cursor(const lager::cursor<T>& r) { return r.get(); }
void plain_set(lager::cursor<T>& r, const T& v) { r.set(v); }
}
