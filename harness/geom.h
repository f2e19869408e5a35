// integer geometry shared by the harnesses of the geometric types
#pragma once
#include "hx.h"
#include <cstdint>
// The 24 unit quaternions with all components in {0, 1/2, 1} (up to sign) are exact in
// floating point, and so are the matrices of their rotations.
struct iquat { int w, x, y, z; };           // components times two
static inline iquat hx_unit_quaternion( int k )
{
  iquat q = { 0, 0, 0, 0 };
  if ( k < 8 ) { int* c[4] = { &q.w, &q.x, &q.y, &q.z }; *c[k & 3] = k & 4 ? -2 : 2; return q; }
  k -= 8;
  q.w = k & 1 ? -1 : 1; q.x = k & 2 ? -1 : 1; q.y = k & 4 ? -1 : 1; q.z = k & 8 ? -1 : 1;
  return q;
}
struct imat { int m[3][3]; };
// image of each axis under q v q*, in integers
static inline imat hx_matrix_of( iquat q )
{
  imat r;
  for ( int a = 0; a < 3; ++a )
  {
    int v[3] = { a == 0, a == 1, a == 2 };
    // q * (0, v)
    int w = -q.x * v[0] - q.y * v[1] - q.z * v[2];
    int x = q.w * v[0] + q.y * v[2] - q.z * v[1];
    int y = q.w * v[1] + q.z * v[0] - q.x * v[2];
    int z = q.w * v[2] + q.x * v[1] - q.y * v[0];
    // * conj(q)
    r.m[0][a] = ( -w * q.x + x * q.w - y * q.z + z * q.y ) / 4;
    r.m[1][a] = ( -w * q.y + y * q.w - z * q.x + x * q.z ) / 4;
    r.m[2][a] = ( -w * q.z + z * q.w - x * q.y + y * q.x ) / 4;
  }
  return r;
}
static inline imat hx_mul( imat a, imat b )
{
  imat r;
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) { r.m[i][j] = 0; for ( int k = 0; k < 3; ++k ) r.m[i][j] += a.m[i][k] * b.m[k][j]; }
  return r;
}
template < typename V > static inline void hx_apply( imat a, V const& v, double out[3] )
{
  for ( int i = 0; i < 3; ++i ) out[i] = a.m[i][0] * double( v[0] ) + a.m[i][1] * double( v[1] ) + a.m[i][2] * double( v[2] );
}
