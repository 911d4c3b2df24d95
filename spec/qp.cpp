// UNITS: problem_expr problem
#include "spec.h"
#include <limits>
#include <stdexcept>
#include "placo/problem/problem.h"
#include "placo/problem/qp_error.h"
#include "placo/problem/sparsity.h"
#include "eiquadprog/eiquadprog.hpp"

using namespace placo::problem;
using Eigen::MatrixXd;
using Eigen::VectorXd;

namespace spec
{
SPECS("P=A03;F=placo::problem::Problem::get_constraint_expressions(placo::problem::ProblemConstraint *,Matrix<-1,-1>&,Matrix<-1,-1>&)")
void get_constraint_expressions(Problem& self, ProblemConstraint* constraint, MatrixXd& A, MatrixXd& b)
{
  if (self.determined_variables == 0)
  {
    A = constraint->expression.A;
    b = constraint->expression.b;
    return;
  }
  // x = Q [y; z], so A x + b = (A Q)_right z + (A Q)_left y + b
  MatrixXd AQ = MatrixXd::Zero(constraint->expression.A.rows(), self.n_variables);
  AQ.leftCols(constraint->expression.A.cols()) = constraint->expression.A;
  self.QR.matrixQ().applyThisOnTheRight(AQ);
  A = AQ.rightCols(self.free_variables);
  b = AQ.leftCols(self.determined_variables) * self.y + constraint->expression.b;
}

SPECS("P=A03,A07;F=placo::problem::Problem::solve()")
void solve(Problem& self)
{
  // every constraint has to fit the problem
  for (auto c : self.constraints)
  {
    if (c->expression.A.cols() > self.n_variables || c->expression.A.rows() == 0 || c->expression.b.rows() == 0 ||
        c->expression.A.rows() != c->expression.b.rows())
    {
      throw QPError("");
    }
    c->is_active = c->type == ProblemConstraint::Equality;
  }
  int equalities = 0, inequalities = 0, slacks = 0;
  for (auto c : self.constraints)
  {
    int rows = c->expression.A.rows();
    if (c->type == ProblemConstraint::Equality)
    {
      equalities += c->priority == ProblemConstraint::Hard ? rows : 0;
    }
    else
    {
      slacks += c->priority == ProblemConstraint::Soft ? rows : 0;
    }
    inequalities += c->type == ProblemConstraint::Inequality ? rows : 0;
  }
  self.slack_variables = slacks;
  self.n_inequalities = inequalities;

  // hard equalities A x + b = 0, stacked in order
  MatrixXd A = MatrixXd::Zero(equalities, self.n_variables);
  VectorXd b = VectorXd::Zero(equalities);
  int row = 0;
  for (auto c : self.constraints)
  {
    if (c->type == ProblemConstraint::Equality && c->priority == ProblemConstraint::Hard)
    {
      A.block(row, 0, c->expression.A.rows(), c->expression.A.cols()) = c->expression.A;
      b.block(row, 0, c->expression.A.rows(), 1) = c->expression.b;
      row += c->expression.A.rows();
    }
  }

  self.n_equalities = equalities;
  self.free_variables = self.n_variables;
  self.determined_variables = 0;
  if (self.rewrite_equalities && equalities > 0)
  {
    self.QR = A.transpose().colPivHouseholderQr();
    self.determined_variables = self.QR.rank();
    if (self.determined_variables != equalities)
    {
      throw QPError("");
    }
    int n = self.determined_variables;
    MatrixXd R = self.QR.matrixR().transpose().block(0, 0, n, n);
    MatrixXd bt = b.transpose();
    self.QR.colsPermutation().applyThisOnTheRight(bt);
    bt.transposeInPlace();
    self.y = R.triangularView<Eigen::Lower>().solve(-bt);
    self.free_variables = self.n_variables - n;
    self.n_equalities = 0;
    A.resize(0, 0);
    b.resize(0);
  }

  int N = self.free_variables + slacks;

  // objective: regularisation + sum of weight |A x + b|^2 of the soft equalities + sum of weight |A x + b - s|^2
  MatrixXd P = MatrixXd::Zero(N, N);
  VectorXd q = VectorXd::Zero(N);
  P.topLeftCorner(self.free_variables, self.free_variables) =
      self.regularization * MatrixXd::Identity(self.free_variables, self.free_variables);
  for (auto c : self.constraints)
  {
    if (c->type == ProblemConstraint::Equality && c->priority == ProblemConstraint::Soft)
    {
      MatrixXd Ac, bc;
      self.get_constraint_expressions(c, Ac, bc);
      if (self.use_sparsity)
      {
        Sparsity s = Sparsity::detect_columns_sparsity(Ac);
        for (auto i : s.intervals)
        {
          int ni = 1 + i.end - i.start;
          for (auto j : s.intervals)
          {
            int nj = 1 + j.end - j.start;
            P.block(i.start, j.start, ni, nj) +=
                c->weight * Ac.block(0, i.start, Ac.rows(), ni).transpose() * Ac.block(0, j.start, Ac.rows(), nj);
          }
        }
      }
      else
      {
        P.topLeftCorner(Ac.cols(), Ac.cols()) += c->weight * Ac.transpose() * Ac;
      }
      q.head(Ac.cols()) += c->weight * Ac.transpose() * bc;
    }
  }

  // inequalities G x + h >= 0: slacks first, then the hard ones in order
  MatrixXd G = MatrixXd::Zero(inequalities, N);
  VectorXd h = VectorXd::Zero(inequalities);
  std::map<int, ProblemConstraint*> hard, soft;
  for (int k = 0; k < slacks; k++)
  {
    G(k, self.free_variables + k) = 1;
  }
  int r = slacks;
  int s = 0;
  for (auto c : self.constraints)
  {
    if (c->type == ProblemConstraint::Inequality)
    {
      MatrixXd Ac, bc;
      self.get_constraint_expressions(c, Ac, bc);
      if (c->priority == ProblemConstraint::Hard)
      {
        G.block(r, 0, Ac.rows(), Ac.cols()) = Ac;
        h.segment(r, Ac.rows()) = bc;
        for (int k = 0; k < Ac.rows(); k++)
        {
          hard[r + k] = c;
        }
        r += Ac.rows();
      }
      else
      {
        MatrixXd As = MatrixXd::Zero(Ac.rows(), N);
        As.leftCols(Ac.cols()) = Ac;
        for (int k = 0; k < Ac.rows(); k++)
        {
          As(k, self.free_variables + s + k) = -1;
          soft[s + k] = c;
        }
        s += Ac.rows();
        P += c->weight * As.transpose() * As;
        q += c->weight * As.transpose() * bc;
      }
    }
  }

  Eigen::VectorXi active;
  size_t n_active;
  VectorXd z = VectorXd::Zero(N);
  double cost = eiquadprog::solvers::solve_quadprog(P, q, A.transpose(), b, G.transpose(), h, z, active, n_active);

  if (self.determined_variables == 0)
  {
    self.x = z;
  }
  else
  {
    VectorXd u = VectorXd::Zero(self.n_variables);
    u.head(self.determined_variables) = self.y;
    u.tail(self.free_variables) = z.head(self.free_variables);
    self.QR.matrixQ().applyThisOnTheLeft(u);
    self.x = u;
  }

  // failures are loud
  if (cost == std::numeric_limits<double>::infinity())
  {
    throw QPError("");
  }
  for (int k = 0; k < A.rows(); k++)
  {
    VectorXd e = A * self.x.head(A.cols()) + b;
    if (std::fabs(e[k]) > 1e-6)
    {
      throw QPError("");
    }
  }
  if (self.x.hasNaN())
  {
    throw QPError("");
  }

  for (int k = 0; k < n_active; k++)
  {
    if (active[k] >= 0 && hard.count(active[k]))
    {
      hard[active[k]]->is_active = true;
    }
  }
  self.slacks = z.segment(self.free_variables, slacks);
  for (int k = 0; k < slacks; k++)
  {
    if (self.slacks[k] <= 1e-6 && soft.count(k))
    {
      soft[k]->is_active = true;
    }
  }

  for (auto v : self.variables)
  {
    v->value = self.x.segment(v->k_start, v->size());
    v->version += 1;
  }
}

SPECS("P=A07;F=placo::problem::Sparsity::operator+(const placo::problem::Sparsity &) const")
Sparsity sparsity_union(const Sparsity& self, const Sparsity& other)
{
  bool ordered = true;
  for (auto i : self.intervals)
  {
    ordered = ordered && i.start <= i.end;
  }
  for (auto i : other.intervals)
  {
    ordered = ordered && i.start <= i.end;
  }
  spec::require(ordered);
  Sparsity s;
  for (auto i : self.intervals)
  {
    s.add_interval(i.start, i.end);
  }
  for (auto i : other.intervals)
  {
    s.add_interval(i.start, i.end);
  }
  return s;
}

SPECS("P=A07;F=placo::problem::Sparsity::detect_columns_sparsity(const Matrix<-1,-1>)")
Sparsity detect(const MatrixXd M)
{
  // maximal runs of non-zero columns
  Sparsity s;
  int first = -1;
  for (int column = 0; column < M.cols(); column++)
  {
    bool zero = M.col(column).isZero(1e-12);
    if (zero && first != -1)
    {
      s.add_interval(first, column - 1);
    }
    first = zero ? -1 : (first == -1 ? column : first);
  }
  if (first != -1)
  {
    s.add_interval(first, M.cols() - 1);
  }
  return s;
}
}  // namespace spec
