// Small vector and matrix helpers of the drivers.
#ifndef CHECK_GEOM_HPP
#define CHECK_GEOM_HPP
#include <array>
#include <cmath>
#include <vector>
namespace geo {
typedef std::array<double,3> V3;
typedef std::array<double,9> M3;   // row major
inline V3 mul(const M3& A,const V3& x){ V3 r; for(int i=0;i<3;++i) r[i]=A[3*i]*x[0]+A[3*i+1]*x[1]+A[3*i+2]*x[2]; return r; }
inline M3 mul(const M3& A,const M3& B){ M3 r; for(int i=0;i<3;++i) for(int j=0;j<3;++j){ r[3*i+j]=0; for(int k=0;k<3;++k) r[3*i+j]+=A[3*i+k]*B[3*k+j]; } return r; }
inline M3 ident(){ return {1,0,0,0,1,0,0,0,1}; }
inline M3 transpose(const M3&A){ return {A[0],A[3],A[6],A[1],A[4],A[7],A[2],A[5],A[8]}; }
inline double det(const M3&A){ return A[0]*(A[4]*A[8]-A[5]*A[7])-A[1]*(A[3]*A[8]-A[5]*A[6])+A[2]*(A[3]*A[7]-A[4]*A[6]); }
inline M3 inverse(const M3&A){ double d=det(A); return {(A[4]*A[8]-A[5]*A[7])/d,(A[2]*A[7]-A[1]*A[8])/d,(A[1]*A[5]-A[2]*A[4])/d,(A[5]*A[6]-A[3]*A[8])/d,(A[0]*A[8]-A[2]*A[6])/d,(A[2]*A[3]-A[0]*A[5])/d,(A[3]*A[7]-A[4]*A[6])/d,(A[1]*A[6]-A[0]*A[7])/d,(A[0]*A[4]-A[1]*A[3])/d}; }
inline M3 rotation(V3 ax,double ang){ double l=std::sqrt(ax[0]*ax[0]+ax[1]*ax[1]+ax[2]*ax[2]); for(auto&c:ax) c/=l; double c=std::cos(ang),s=std::sin(ang),t=1-c; return {t*ax[0]*ax[0]+c,t*ax[0]*ax[1]-s*ax[2],t*ax[0]*ax[2]+s*ax[1],t*ax[0]*ax[1]+s*ax[2],t*ax[1]*ax[1]+c,t*ax[1]*ax[2]-s*ax[0],t*ax[0]*ax[2]-s*ax[1],t*ax[1]*ax[2]+s*ax[0],t*ax[2]*ax[2]+c}; }
inline V3 cross(const V3&a,const V3&b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; }
inline double dot(const V3&a,const V3&b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline V3 sub(const V3&a,const V3&b){ return {a[0]-b[0],a[1]-b[1],a[2]-b[2]}; }
inline V3 add(const V3&a,const V3&b){ return {a[0]+b[0],a[1]+b[1],a[2]+b[2]}; }
inline double norm(const V3&a){ return std::sqrt(dot(a,a)); }
}
#endif
