// Declarations of the part of Omega_h that the repository's element, assembly and material code uses.
// The library itself is not installed here. Only the documented meaning of each call is written down:
// arrays, small vectors and (column major) matrices, determinant and inverse, and a mesh which hands out
// its element-to-vertex map, its coordinates and its vertex-to-vertex graph.
#pragma once
#include <Kokkos_Core.hpp>
#include <map>
#include <string>
#include <vector>
namespace Omega_h {
typedef int LO; typedef long GO; typedef double Real; typedef int Int; typedef signed char I8;
enum { VERT = 0, EDGE = 1, FACE = 2, REGION = 3 };
enum SetType { ELEM_SET, SIDE_SET, NODE_SET };
template<typename T> class Read {
  Kokkos::View<T*> mData;
public:
  Read() {}
  Read(Kokkos::View<T*> aData) : mData(aData) {}
  T & operator[](LO i) const { return mData(i); }
  LO size() const { return mData.extent(0); }
  Kokkos::View<T*> view() const { return mData; }
};
typedef Read<LO> LOs; typedef Read<Real> Reals; typedef Read<I8> Bytes;
struct Graph { LOs a2ab; LOs ab2b; };
struct Adj { LOs ab2b; Read<I8> codes; LOs a2ab; };
typedef std::map<std::string, LOs> MeshDimSets;
class MeshSets {
  MeshDimSets mElem; MeshDimSets mSide; MeshDimSets mNode;
public:
  MeshDimSets & operator[](SetType t) { if (t == ELEM_SET) return mElem; if (t == SIDE_SET) return mSide; return mNode; }
};
class Mesh {
  LO mDim; LO mElems; LO mVerts; LOs mElemVerts; LOs mSideVerts; Reals mCoords; Graph mStar;
public:
  Mesh(LO d, LO ne, LO nv, LOs ev, LOs sv, Reals x, Graph g) : mDim(d), mElems(ne), mVerts(nv), mElemVerts(ev), mSideVerts(sv), mCoords(x), mStar(g) {}
  LO dim() const { return mDim; }
  LO nelems() const { return mElems; }
  LO nverts() const { return mVerts; }
  LOs ask_elem_verts() { return mElemVerts; }
  LOs ask_verts_of(Int d) { return d == mDim ? mElemVerts : mSideVerts; }
  Reals coords() const { return mCoords; }
  Graph ask_star(Int) { return mStar; }
};
template<Int n> class Vector {
  Real mX[n];
public:
  Vector() {}
  Real & operator[](Int i) { return mX[i]; }
  const Real & operator[](Int i) const { return mX[i]; }
  Real & operator()(Int i) { return mX[i]; }
  const Real & operator()(Int i) const { return mX[i]; }
};
// m rows, n columns, stored by columns
template<Int m, Int n> class Matrix {
  Vector<m> mC[n];
public:
  Matrix() {}
  Vector<m> & operator[](Int j) { return mC[j]; }
  const Vector<m> & operator[](Int j) const { return mC[j]; }
  Real & operator()(Int i, Int j) { return mC[j][i]; }
  const Real & operator()(Int i, Int j) const { return mC[j][i]; }
};
template<Int n> Real operator*(Vector<n> a, Vector<n> b) { Real s = 0.0; for (Int i = 0; i < n; i++) s += a[i] * b[i]; return s; }
template<Int m, Int n> Vector<m> operator*(Matrix<m,n> a, Vector<n> b) { Vector<m> c; for (Int i = 0; i < m; i++) { c[i] = 0.0; for (Int j = 0; j < n; j++) c[i] += a(i,j) * b[j]; } return c; }
template<Int m, Int n, Int p> Matrix<m,n> operator*(Matrix<m,p> a, Matrix<p,n> b) { Matrix<m,n> c; for (Int i = 0; i < m; i++) for (Int j = 0; j < n; j++) { c(i,j) = 0.0; for (Int k = 0; k < p; k++) c(i,j) += a(i,k) * b(k,j); } return c; }
inline Real determinant(Matrix<1,1> a) { return a(0,0); }
inline Real determinant(Matrix<2,2> a) { return a(0,0) * a(1,1) - a(0,1) * a(1,0); }
inline Real determinant(Matrix<3,3> a) { return a(0,0) * (a(1,1) * a(2,2) - a(1,2) * a(2,1)) - a(0,1) * (a(1,0) * a(2,2) - a(1,2) * a(2,0)) + a(0,2) * (a(1,0) * a(2,1) - a(1,1) * a(2,0)); }
inline Matrix<1,1> invert(Matrix<1,1> a) { Matrix<1,1> b; b(0,0) = 1.0 / a(0,0); return b; }
inline Matrix<2,2> invert(Matrix<2,2> a) { Matrix<2,2> b; Real d = determinant(a); b(0,0) = a(1,1)/d; b(0,1) = -a(0,1)/d; b(1,0) = -a(1,0)/d; b(1,1) = a(0,0)/d; return b; }
inline Matrix<3,3> invert(Matrix<3,3> a) { Matrix<3,3> b; Real d = determinant(a);
  for (Int i = 0; i < 3; i++) for (Int j = 0; j < 3; j++) { Int p = (j + 1) % 3, q = (j + 2) % 3, r = (i + 1) % 3, s = (i + 2) % 3; b(i,j) = (a(p,r) * a(q,s) - a(p,s) * a(q,r)) / d; }
  return b; }
}
