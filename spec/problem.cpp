// UNITS: problem_expr problem
#include "spec.h"
#include <stdexcept>
#include <sstream>
#include "placo/problem/problem.h"
#include "placo/problem/expression.h"
#include "placo/problem/constraint.h"
#include "placo/problem/variable.h"
#include "placo/problem/sparsity.h"
#include "placo/problem/polygon_constraint.h"

using namespace placo::problem;
using Eigen::MatrixXd;
using Eigen::VectorXd;

namespace spec
{
// ---------------------------------------------------------------------------------------------- expression algebra
static Expression make(const MatrixXd& A, const VectorXd& b)
{
  Expression r;
  r.A = A;
  r.b = b;
  return r;
}

SPECS("P=A01;F=placo::problem::Expression::from_vector(const Matrix<-1,1>&)")
Expression from_vector(const VectorXd& v)
{
  return make(MatrixXd(v.rows(), 0), v);
}

SPECS("P=A01;F=placo::problem::Expression::from_double(const double &)")
Expression from_double(const double& v)
{
  return make(MatrixXd(1, 0), VectorXd::Constant(1, v));
}

SPECS("P=A01;F=placo::problem::Expression::is_scalar() const")
bool is_scalar(const Expression& self)
{
  return self.A.rows() == 1;
}

SPECS("P=A01;F=placo::problem::Expression::is_constant() const")
bool is_constant(const Expression& self)
{
  return self.A.cols() == 0;
}

SPECS("P=A01;F=placo::problem::Expression::cols() const")
int cols(const Expression& self)
{
  return self.A.cols();
}

SPECS("P=A01;F=placo::problem::Expression::rows() const")
int rows(const Expression& self)
{
  return self.A.rows();
}

SPECS("P=A01;F=placo::problem::Expression::slice(int,int) const")
Expression slice(const Expression& self, int start, int rows)
{
  int n = rows < 0 ? int(self.A.rows()) - start : rows;
  return make(self.A.middleRows(start, n), self.b.segment(start, n));
}

SPECS("P=A01;F=placo::problem::Expression::piecewise_add(double) const")
Expression piecewise_add(const Expression& self, double f)
{
  return make(self.A, self.b + VectorXd::Constant(self.b.rows(), f));
}

SPECS("P=A01;F=placo::problem::Expression::operator+(const placo::problem::Expression &) const")
Expression add(const Expression& self, const Expression& other)
{
  if (self.A.rows() == 1 && self.A.cols() == 0)
  {
    return make(other.A, other.b + VectorXd::Constant(other.b.rows(), self.b(0)));
  }
  if (other.A.rows() == 1 && other.A.cols() == 0)
  {
    return make(self.A, self.b + VectorXd::Constant(self.b.rows(), other.b(0)));
  }
  if (self.A.rows() != other.A.rows())
  {
    throw std::runtime_error("rows");
  }
  MatrixXd A = MatrixXd::Zero(self.A.rows(), std::max(self.A.cols(), other.A.cols()));
  A.leftCols(self.A.cols()) += self.A;
  A.leftCols(other.A.cols()) += other.A;
  return make(A, self.b + other.b);
}

SPECS("P=A01;F=placo::problem::Expression::operator-(const placo::problem::Expression &) const")
Expression sub(const Expression& self, const Expression& other)
{
  return self + make(-other.A, -other.b);
}

SPECS("P=A01;F=placo::problem::Expression::operator-() const")
Expression neg(const Expression& self)
{
  return make(-self.A, -self.b);
}

SPECS("P=A01;F=placo::problem::operator*(double,const placo::problem::Expression &)")
Expression scaled_l(double f, const Expression& e)
{
  return make(f * e.A, f * e.b);
}

SPECS("P=A01;F=placo::problem::Expression::operator*(double) const")
Expression scaled(const Expression& self, double f)
{
  return make(f * self.A, f * self.b);
}

SPECS("P=A01;F=placo::problem::Expression::operator*(const placo::problem::Expression &) const")
Expression mul(const Expression& self, const Expression& other)
{
  if (self.A.rows() == 1 && other.A.cols() == 0)
  {
    Expression r;
    r.A = MatrixXd(other.A.rows(), self.A.cols());
    r.b = VectorXd(other.A.rows());
    for (int k = 0; k < other.A.rows(); k++)
    {
      r.A.row(k) = other.b(k) * self.A.row(0);
      r.b(k) = other.b(k) * self.b(0);
    }
    return r;
  }
  if (other.A.rows() == 1 && self.A.cols() == 0)
  {
    Expression r;
    r.A = MatrixXd(self.A.rows(), other.A.cols());
    r.b = VectorXd(self.A.rows());
    for (int k = 0; k < self.A.rows(); k++)
    {
      r.A.row(k) = self.b(k) * other.A.row(0);
      r.b(k) = self.b(k) * other.b(0);
    }
    return r;
  }
  throw std::runtime_error("product");
}

SPECS("P=A01;F=placo::problem::Expression::operator+(const Matrix<-1,1>) const")
Expression add_v(const Expression& self, const VectorXd v)
{
  return make(self.A, self.b + v);
}

SPECS("P=A01;F=placo::problem::operator+(const Matrix<-1,1>,const placo::problem::Expression &)")
Expression add_v_l(const VectorXd v, const Expression& e)
{
  return make(e.A, e.b + v);
}

SPECS("P=A01;F=placo::problem::Expression::operator-(const Matrix<-1,1>) const")
Expression sub_v(const Expression& self, const VectorXd v)
{
  return make(self.A, self.b - v);
}

SPECS("P=A01;F=placo::problem::operator-(const Matrix<-1,1>,const placo::problem::Expression &)")
Expression sub_v_l(const VectorXd v, const Expression& e)
{
  return make(-e.A, v - e.b);
}

SPECS("P=A01;F=placo::problem::Expression::operator+(const double) const")
Expression add_d(const Expression& self, const double f)
{
  return make(self.A, self.b + VectorXd::Constant(self.A.rows(), f));
}

SPECS("P=A01;F=placo::problem::operator+(double,const placo::problem::Expression &)")
Expression add_d_l(double f, const Expression& e)
{
  return make(e.A, e.b + VectorXd::Constant(e.A.rows(), f));
}

SPECS("P=A01;F=placo::problem::Expression::operator-(const double) const")
Expression sub_d(const Expression& self, const double f)
{
  return make(self.A, self.b - VectorXd::Constant(self.A.rows(), f));
}

SPECS("P=A01;F=placo::problem::operator-(double,const placo::problem::Expression &)")
Expression sub_d_l(double f, const Expression& e)
{
  return make(-e.A, VectorXd::Constant(e.A.rows(), f) - e.b);
}

SPECS("P=A01;F=placo::problem::operator*(const Matrix<-1,-1>,const placo::problem::Expression &)")
Expression mat_mul(const MatrixXd M, const Expression& e)
{
  return make(M * e.A, M * e.b);
}

SPECS("P=A01;F=placo::problem::Expression::left_multiply(const Matrix<-1,-1>)")
Expression left_multiply(Expression& self, const MatrixXd M)
{
  return make(M * self.A, M * self.b);
}

SPECS("P=A01;F=placo::problem::Expression::sum()")
Expression sum(Expression& self)
{
  Expression r;
  r.A = MatrixXd::Zero(1, self.A.cols());
  r.b = VectorXd::Zero(1);
  for (int k = 0; k < self.A.rows(); k++)
  {
    r.A += self.A.row(k);
    r.b(0) += self.b(k);
  }
  return r;
}

SPECS("P=A01;F=placo::problem::Expression::mean()")
Expression mean(Expression& self)
{
  Expression r = self.sum();
  double n = self.A.rows();
  return make(r.A / n, r.b / n);
}

SPECS("P=A01;F=placo::problem::Expression::operator/(const placo::problem::Expression &) const")
Expression stack(const Expression& self, const Expression& other)
{
  Expression r;
  r.A = MatrixXd::Zero(self.A.rows() + other.A.rows(), std::max(self.A.cols(), other.A.cols()));
  r.b = VectorXd::Zero(self.A.rows() + other.A.rows());
  r.A.block(0, 0, self.A.rows(), self.A.cols()) = self.A;
  r.A.block(self.A.rows(), 0, other.A.rows(), other.A.cols()) = other.A;
  r.b.head(self.A.rows()) = self.b;
  r.b.segment(self.A.rows(), other.A.rows()) = other.b;
  return r;
}

SPECS("P=A01;F=placo::problem::Expression::value(Matrix<-1,1>) const")
VectorXd value(const Expression& self, VectorXd x)
{
  return self.b + self.A * x.head(self.A.cols());
}

// -------------------------------------------------------------------------------------------------- constraints
static ProblemConstraint constraint(const Expression& e, ProblemConstraint::Type type)
{
  ProblemConstraint c;
  c.expression = e;
  c.type = type;
  c.priority = ProblemConstraint::Hard;
  c.weight = 1.0;
  c.is_active = false;
  return c;
}

SPECS("P=A02;F=placo::problem::Expression::operator>=(const placo::problem::Expression &) const")
ProblemConstraint ge(const Expression& self, const Expression& other)
{
  return constraint(self - other, ProblemConstraint::Inequality);
}

SPECS("P=A02;F=placo::problem::Expression::operator<=(const placo::problem::Expression &) const")
ProblemConstraint le(const Expression& self, const Expression& other)
{
  return constraint(other - self, ProblemConstraint::Inequality);
}

SPECS("P=A02;F=placo::problem::Expression::operator>=(double) const")
ProblemConstraint ge_d(const Expression& self, double f)
{
  return constraint(self - from_double(f), ProblemConstraint::Inequality);
}

SPECS("P=A02;F=placo::problem::operator>=(double,const placo::problem::Expression &)")
ProblemConstraint ge_d_l(double f, const Expression& e)
{
  return constraint(from_double(f) - e, ProblemConstraint::Inequality);
}

SPECS("P=A02;F=placo::problem::Expression::operator<=(double) const")
ProblemConstraint le_d(const Expression& self, double f)
{
  return constraint(from_double(f) - self, ProblemConstraint::Inequality);
}

SPECS("P=A02;F=placo::problem::operator<=(double,const placo::problem::Expression &)")
ProblemConstraint le_d_l(double f, const Expression& e)
{
  return constraint(e - from_double(f), ProblemConstraint::Inequality);
}

SPECS("P=A02;F=placo::problem::Expression::operator>=(Matrix<-1,1>) const")
ProblemConstraint ge_v(const Expression& self, VectorXd v)
{
  return constraint(self - from_vector(v), ProblemConstraint::Inequality);
}

SPECS("P=A02;F=placo::problem::operator>=(Matrix<-1,1>,const placo::problem::Expression &)")
ProblemConstraint ge_v_l(VectorXd v, const Expression& e)
{
  return constraint(from_vector(v) - e, ProblemConstraint::Inequality);
}

SPECS("P=A02;F=placo::problem::Expression::operator<=(Matrix<-1,1>) const")
ProblemConstraint le_v(const Expression& self, VectorXd v)
{
  return constraint(from_vector(v) - self, ProblemConstraint::Inequality);
}

SPECS("P=A02;F=placo::problem::operator<=(Matrix<-1,1>,const placo::problem::Expression &)")
ProblemConstraint le_v_l(VectorXd v, const Expression& e)
{
  return constraint(e - from_vector(v), ProblemConstraint::Inequality);
}

SPECS("P=A02;F=placo::problem::Expression::operator==(const placo::problem::Expression &) const")
ProblemConstraint eq(const Expression& self, const Expression& other)
{
  return constraint(self - other, ProblemConstraint::Equality);
}

SPECS("P=A02;F=placo::problem::Expression::operator==(Matrix<-1,1>) const")
ProblemConstraint eq_v(const Expression& self, VectorXd v)
{
  return constraint(self - from_vector(v), ProblemConstraint::Equality);
}

SPECS("P=A02;F=placo::problem::operator==(Matrix<-1,1>,const placo::problem::Expression &)")
ProblemConstraint eq_v_l(VectorXd v, const Expression& e)
{
  return constraint(e - from_vector(v), ProblemConstraint::Equality);
}

SPECS("P=A02;F=placo::problem::Expression::operator==(double) const")
ProblemConstraint eq_d(const Expression& self, double f)
{
  return constraint(self - from_double(f), ProblemConstraint::Equality);
}

SPECS("P=A02;F=placo::problem::operator==(double,const placo::problem::Expression &)")
ProblemConstraint eq_d_l(double f, const Expression& e)
{
  return constraint(e - from_double(f), ProblemConstraint::Equality);
}

SPECS("P=A02;F=placo::problem::ProblemConstraint::configure(string,double)")
void configure_s(ProblemConstraint& self, std::string type, double weight)
{
  spec::require(type == "hard" || type == "soft");
  self.priority = type == "soft" ? ProblemConstraint::Soft : ProblemConstraint::Hard;
  self.weight = weight;
}

SPECS("P=A02;F=placo::problem::ProblemConstraint::configure(placo::problem::ProblemConstraint::Priority,double)")
void configure_p(ProblemConstraint& self, ProblemConstraint::Priority priority, double weight)
{
  self.weight = weight;
  self.priority = priority;
}

SPECS("P=A02;F=placo::problem::Problem::add_limit(placo::problem::Expression,Matrix<-1,1>)")
ProblemConstraint& add_limit(Problem& self, Expression e, VectorXd target)
{
  // -target <= e <= target, as two stacked halves: target - e >= 0 and target + e >= 0
  int n = e.A.rows();
  Expression both;
  both.A = MatrixXd(2 * n, e.A.cols());
  both.b = VectorXd(2 * n);
  both.A.topRows(n) = e.A;
  both.A.bottomRows(n) = -e.A;
  both.b.head(n) = e.b;
  both.b.tail(n) = -e.b;
  VectorXd bound(2 * target.rows());
  bound.head(target.rows()) = target;
  bound.tail(target.rows()) = target;
  return self.add_constraint(both <= bound);
}

SPECS("P=A02;F=placo::problem::PolygonConstraint::in_polygon_xy(const placo::problem::Expression &,vector<Matrix<2,1>>,double)")
ProblemConstraint in_polygon_xy(const Expression& e, std::vector<Eigen::Vector2d> polygon, double margin)
{
  if (e.A.rows() != 2)
  {
    throw std::runtime_error("rows");
  }
  Expression v;
  v.A = MatrixXd(polygon.size(), e.A.cols());
  v.b = VectorXd(polygon.size());
  for (size_t i = 0; i < polygon.size(); i++)
  {
    Eigen::Vector2d P = polygon[i];
    Eigen::Vector2d Q = polygon[(i + 1) % polygon.size()];
    // right-hand normal of the edge: inside, for a clockwise polygon
    Eigen::Vector2d n = Eigen::Vector2d(Q.y() - P.y(), P.x() - Q.x()).normalized();
    v.A.row(i) = n.transpose() * e.A;
    v.b(i) = n.dot(Eigen::Vector2d(e.b) - P) - margin;
  }
  return v >= 0;
}

SPECS("P=A02;F=placo::problem::PolygonConstraint::in_polygon(const placo::problem::Expression &,const placo::problem::Expression &,vector<Matrix<2,1>>,double)")
ProblemConstraint in_polygon(const Expression& x, const Expression& y, std::vector<Eigen::Vector2d> polygon, double margin)
{
  return PolygonConstraint::in_polygon_xy(x / y, polygon, margin);
}

// ---------------------------------------------------------------------------------------------- variables, bookkeeping
SPECS("P=A04;F=placo::problem::Variable::size()")
int variable_size(Variable& self)
{
  return self.k_end - self.k_start;
}

SPECS("P=A04;F=placo::problem::Variable::expr(int,int)")
Expression variable_expr(Variable& self, int start, int rows)
{
  int s = start == -1 ? 0 : start;
  int n = rows == -1 ? self.k_end - self.k_start - s : rows;
  Expression e;
  e.A = MatrixXd::Zero(n, self.k_end);
  e.b = VectorXd::Zero(n);
  for (int k = 0; k < n; k++)
  {
    e.A(k, self.k_start + s + k) = 1;
  }
  return e;
}

SPECS("P=A04;F=placo::problem::Problem::add_variable(int)")
Variable& add_variable(Problem& self, int size)
{
  Variable* v = new Variable;
  v->k_start = self.n_variables;
  v->k_end = self.n_variables + size;
  v->problem = &self;
  v->version = 0;
  self.variables.push_back(v);
  self.n_variables = self.n_variables + size;
  return *v;
}

SPECS("P=A04;F=placo::problem::Problem::add_constraint(const placo::problem::ProblemConstraint &)")
ProblemConstraint& add_constraint(Problem& self, const ProblemConstraint& c)
{
  ProblemConstraint* copy = new ProblemConstraint(c);
  self.constraints.push_back(copy);
  return *copy;
}

SPECS("P=A04,M02;F=placo::problem::Problem::clear_constraints()")
void clear_constraints(Problem& self)
{
  for (ProblemConstraint* c : self.constraints)
  {
    delete c;
  }
  self.constraints.clear();
}

SPECS("P=A04,M02;F=placo::problem::Problem::clear_variables()")
void clear_variables(Problem& self)
{
  for (Variable* v : self.variables)
  {
    delete v;
  }
  self.variables.clear();
  self.n_variables = 0;
}

SPECS("P=A04,M02;F=placo::problem::Problem::~Problem()")
void destroy(Problem& self)
{
  for (ProblemConstraint* c : self.constraints)
  {
    delete c;
  }
  for (Variable* v : self.variables)
  {
    delete v;
  }
  self.constraints.clear();
  self.variables.clear();
}

// ------------------------------------------------------------------------------------------------------- sparsity
SPECS("P=A07;F=placo::problem::Sparsity::Interval::contains(int)")
bool contains(Sparsity::Interval& self, int i)
{
  return i >= self.start && i <= self.end;
}

SPECS("P=A07;F=placo::problem::Sparsity::add_interval(int,int)")
void add_interval(Sparsity& self, int start, int end)
{
  // intervals are kept ordered and disjoint
  bool ordered = start <= end;
  int n = self.intervals.size();
  for (int k = 0; k < n; k++)
  {
    ordered = ordered && self.intervals[k].start <= self.intervals[k].end;
  }
  for (int k = 1; k < n; k++)
  {
    ordered = ordered && self.intervals[k - 1].end < self.intervals[k].start;
  }
  spec::require(ordered);

  std::vector<Sparsity::Interval> result;
  for (auto i : self.intervals)
  {
    if (i.end < start)
    {
      result.push_back(i);
    }
  }
  // the union with everything it touches
  int lo = start;
  int hi = end;
  for (auto i : self.intervals)
  {
    if (i.end >= start && i.start <= end)
    {
      lo = std::min(lo, i.start);
      hi = std::max(hi, i.end);
    }
  }
  result.push_back(Sparsity::Interval(lo, hi));
  for (auto i : self.intervals)
  {
    if (i.start > end)
    {
      result.push_back(i);
    }
  }
  self.intervals = result;
}
}  // namespace spec
