// Verification intrinsics: never executed, interpreted by /verif/engine.
#pragma once
#include <cstddef>
int VP_any_int();
std::size_t VP_any_size();
double VP_any_double();
bool VP_any_bool();
void VP_assume(bool);
void VP_assert(bool, const char*);
void VP_equal(double, double, const char*);  // both terms denote the same value
template <class T> bool VP_is_focus(const T&);
bool VP_has_focus();
bool VP_focus_alive();
template <class T> void VP_focus_elems();
void VP_focus_off();
void VP_focus_on();
void VP_dims(std::size_t);
int VP_K();
template <class A, class B> bool VP_same(const A*, const B*);
template <class T> void VP_havoc(T&);
template <class T> void VP_havoc_elems(T&);
void VP_prefix();
template <class C, class F> void VP_each(C&, F);
template <class T> void VP_dump(const T&);
void VP_reach(const char*);
void VP_draws(double a, double b);
