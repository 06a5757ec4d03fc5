// Shared includes and helpers for checks that build graphs
#pragma once
#include "common.hpp"
#include "graph/varptr.hpp"
#include "graph/leaf/variable.hpp"
#include "graph/leaf/placeholder.hpp"
#include "graph/leaf/constant.hpp"
#include "graph/operations/operations.hpp"
#include "utils/futils.hpp"
#include <memory>

typedef nnet::variable<double> Var;
typedef nnet::placeholder<double> Ph;
typedef nnet::inode<double> Node;
typedef nnet::varptr<double> Vp;
using nnet::tensorshape;

// give a variable these contents through its public interface
inline void set_var (Var* v, const Vec& data)
{
	nnet::constant<double>* k = nnet::constant<double>::get(data, tensorshape({data.size()}));
	nnet::variable_updater<double> up = v->assign(k);
	delete k;
	up(true);
}
inline Var* make_var (const Dims& d, const Vec& data, const std::string& name)
{
	nnet::const_init<double> z(0);
	Var* v = new Var(tensorshape(d), z, name);
	v->initialize();
	set_var(v, data);
	return v;
}
struct Val { Dims d; Vec v; };
// current value of a node; d empty when it has none
inline Val value_of (Node* n)
{
	Val r;
	const nnet::tensor<double>* t = n->eval();
	if (nullptr == t || !t->is_alloc()) return r;
	r.d = t->get_shape().as_list();
	r.v = t->expose();
	return r;
}
inline std::string show (const Val& v) { return show(v.d) + "=" + show(v.v); }
inline int use_seed (uint64_t s) { nnutils::seed_generator(s); return 0; }
inline void graph_reset (void) { nnutils::seed_generator(1); }
