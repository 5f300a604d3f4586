/* Drives the repository's native kernels with random well-formed operands held in
   exactly-sized heap buffers.  Built with MemorySanitizer (and UBSan), so reading a
   value no kernel wrote, or arithmetic UB, ends the program. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <complex.h>
#include "coo_to_csc.h"
#include "cs_add_inplace.h"
#include "cs_add_inplace_complex.h"
#include "cs_block_diag_self_dot.h"
#include "cs_dot.h"
#include "cs_kron_ds.h"
#include "cs_kron_id_sp.h"
#include "cs_kron_sd.h"
#include "cs_kron_ss.h"
#include "cs_matmul_inplace.h"
#include "cs_matmul_inplace_complex.h"
#include "cs_pattern_trace.h"
#include "naive_matmul_inplace.h"
#include "repeat_1d.h"
#include "tile_1d.h"
#include "tile_1d_complex.h"

static uint64_t S;
static uint32_t rnd(void){ S ^= S<<13; S ^= S>>7; S ^= S<<17; return (uint32_t)(S>>16); }
static int ri(int lo,int hi){ return lo + (int)(rnd()%(uint32_t)(hi-lo)); }
static double rv(void){ return (rnd()%4==0)?0.0:((double)rnd()/4294967296.0-0.5)*4; }
static long ncalls; static double sink;
static void use(const double*x,long n){ for(long i=0;i<n;i++) if(x[i]>1e200) sink+=1; }
static void usei(const int*x,long n,int lim){ for(long i=0;i<n;i++) if(x[i]<0||x[i]>=lim){ fprintf(stderr,"INDEX OUT OF RANGE %d of %d\n",x[i],lim); exit(78);} }
typedef struct { int nr,nc,nz; int *p,*i; double *x; double complex *z; } M;
static void *xm(size_t n){ return malloc(n?n:1); }
static M mk(int nr,int nc,int dens){
  M a; a.nr=nr;a.nc=nc; char *m=xm((size_t)nr*nc); int nz=0;
  int ec=rnd()%2, er=rnd()%3==0; char *ce=xm(nc),*re=xm(nr);
  for(int j=0;j<nc;j++) ce[j]=ec&&rnd()%2; for(int i=0;i<nr;i++) re[i]=er&&rnd()%2;
  for(int j=0;j<nc;j++)for(int i=0;i<nr;i++){ int b=(ri(0,100)<dens)&&!ce[j]&&!re[i]; m[i+(size_t)j*nr]=b; nz+=b; }
  if(!nz){ m[0]=1; nz=1; }
  a.nz=nz;a.p=xm(sizeof(int)*(nc+1));a.i=xm(sizeof(int)*nz);a.x=xm(sizeof(double)*nz);a.z=xm(sizeof(double complex)*nz);
  int k=0; for(int j=0;j<nc;j++){ a.p[j]=k; for(int i=0;i<nr;i++) if(m[i+(size_t)j*nr]){ a.i[k]=i;a.x[k]=rv();a.z[k]=rv()+rv()*I;k++; } } a.p[nc]=k;
  free(m);free(ce);free(re); return a; }
static void fr(M a){ free(a.p);free(a.i);free(a.x);free(a.z); }
static M unite(M a,M b,int mul){ /* structural union, or structural product */
  int nr=a.nr,nc=b.nc; char*m=calloc((size_t)nr*nc,1);
  if(!mul){ for(int j=0;j<nc;j++){ for(int p=a.p[j];p<a.p[j+1];p++)m[a.i[p]+(size_t)j*nr]=1; for(int p=b.p[j];p<b.p[j+1];p++)m[b.i[p]+(size_t)j*nr]=1; } }
  else for(int j=0;j<nc;j++)for(int p=b.p[j];p<b.p[j+1];p++)for(int q=a.p[b.i[p]];q<a.p[b.i[p]+1];q++)m[a.i[q]+(size_t)j*nr]=1;
  M c; c.nr=nr;c.nc=nc;c.nz=0; for(size_t k=0;k<(size_t)nr*nc;k++)c.nz+=m[k];
  c.p=xm(sizeof(int)*(nc+1));c.i=xm(sizeof(int)*c.nz);c.x=xm(sizeof(double)*c.nz);c.z=xm(sizeof(double complex)*c.nz);
  int k=0; for(int j=0;j<nc;j++){ c.p[j]=k; for(int i=0;i<nr;i++) if(m[i+(size_t)j*nr])c.i[k++]=i; } c.p[nc]=k; free(m); return c; }
static double *dense(int n){ double*d=xm(sizeof(double)*n); for(int i=0;i<n;i++)d[i]=rv(); return d; }

int main(int argc,char**argv){
  long n=argc>2?atol(argv[2]):1000; S=0x9E3779B97F4A7C15ull*(uint64_t)(atol(argv[1])*2+1);
  for(int i=0;i<10;i++)rnd();
  for(long it=0;it<n;it++){
    int a=ri(1,7),b=ri(1,7),c=ri(1,7),d=ri(1,7),den=ri(10,101); if(rnd()%20==0)a=ri(20,70);
    M A=mk(a,b,den),B=mk(c,d,ri(10,101)); int nz=A.nz*B.nz;
    { int*p=xm(sizeof(int)*(b*d+1)),*i=xm(sizeof(int)*nz);double*x=xm(sizeof(double)*nz); p[0]=0;
      cs_kron_ss(A.p,A.i,A.x,a,b,B.p,B.i,B.x,c,d,p,i,x); use(x,nz);usei(i,nz,a*c);usei(p,b*d+1,nz+1);
      cs_kron_ss_inplace(A.p,A.i,A.x,a,b,B.p,B.i,B.x,c,d,x);use(x,nz);free(p);free(i);free(x);ncalls+=2; }
    { double*D=dense(a*b); int z=a*b*B.nz; int*p=xm(sizeof(int)*(b*d+1)),*i=xm(sizeof(int)*z);double*x=xm(sizeof(double)*z);p[0]=0;
      cs_kron_ds(D,a,b,B.p,B.i,B.x,c,d,p,i,x);use(x,z);usei(i,z,a*c);usei(p,b*d+1,z+1);
      double*y=xm(sizeof(double)*z); cs_kron_ds_inplace(D,a,b,B.p,B.i,B.x,c,d,y);use(y,z);free(y);free(D);free(p);free(i);free(x);ncalls+=2; }
    { double*D=dense(c*d); int z=c*d*A.nz; int*p=xm(sizeof(int)*(b*d+1)),*i=xm(sizeof(int)*z);double*x=xm(sizeof(double)*z);p[0]=0;
      cs_kron_sd(A.p,A.i,A.x,a,b,D,c,d,p,i,x);use(x,z);usei(i,z,a*c);usei(p,b*d+1,z+1);
      double*y=xm(sizeof(double)*z); cs_kron_sd_inplace(A.p,A.i,A.x,a,b,D,c,d,y);use(y,z);free(y);free(D);free(p);free(i);free(x);ncalls+=2; }
    { int m=ri(1,6),z=m*B.nz; int*p=xm(sizeof(int)*(m*d+1)),*i=xm(sizeof(int)*z);double*x=xm(sizeof(double)*z);p[0]=0;
      cs_kron_id_sp(m,B.x,B.i,B.p,c,d,x,i,p);use(x,z);usei(i,z,m*c);usei(p,m*d+1,z+1);
      double*y=xm(sizeof(double)*z); cs_kron_id_sp_inplace(m,B.x,B.i,B.p,c,d,y,i,p);use(y,z);free(y);free(p);free(i);free(x);ncalls+=2; }
    { M E=mk(a,b,50),C=unite(A,E,0); for(int r=0;r<2;r++){ cs_add_inplace(A.p,A.i,A.x,E.p,E.i,E.x,1.5,-1,C.p,C.i,C.x,a,b);use(C.x,C.nz);
      cs_add_inplace_complex(A.p,A.i,A.z,E.p,E.i,E.z,1.5+I,-1,C.p,C.i,C.z,a,b);use((double*)C.z,2*C.nz);usei(C.i,C.nz,a);usei(C.p,b+1,C.nz+1);ncalls+=2;} fr(E);fr(C); }
    { M E=mk(b,c,50),C=unite(A,E,1); if(C.nz) for(int r=0;r<2;r++){ cs_matmul_inplace(A.p,A.i,A.x,a,b,E.p,E.i,E.x,b,c,C.p,C.i,C.x);use(C.x,C.nz);
      cs_matmul_inplace_complex(A.p,A.i,A.z,a,b,E.p,E.i,E.z,b,c,C.p,C.i,C.z);use((double*)C.z,2*C.nz);usei(C.i,C.nz,a);usei(C.p,c+1,C.nz+1);ncalls+=2;} fr(E);fr(C); }
    { int z=ri(1,2*a*b+1); int*r=xm(sizeof(int)*z),*k=xm(sizeof(int)*z);double*x=dense(z); for(int q=0;q<z;q++){r[q]=ri(0,a);k[q]=ri(0,b);}
      int*p=calloc(b+1,sizeof(int)),*i=xm(sizeof(int)*z);double*y=xm(sizeof(double)*z); coo_to_csc(a,b,z,r,k,x,p,i,y);use(y,z);usei(i,z,a);usei(p,b+1,z+1);
      free(r);free(k);free(x);free(p);free(i);free(y);ncalls++; }
    { M u=mk(a,1,50),v=mk(a,1,50);double o=0;cs_dot(u.x,u.i,u.nz,v.x,v.i,v.nz,&o);use(&o,1);fr(u);fr(v);ncalls++; }
    { M C=mk(b,b,50);double o=0;cs_pattern_trace(A.p,A.i,A.x,a,b,A.nz,C.p,C.i,C.x,b,b,C.nz,&o);use(&o,1);fr(C);ncalls++; }
    { int ng=ri(1,6),nv=ri(1,5);M L=mk(ri(1,9),ng*nv,50);double*o=xm(sizeof(double)*nv*nv);cs_block_diag_self_dot(L.p,L.i,L.x,ng*nv,L.nr,ng,nv,o);use(o,nv*nv);free(o);fr(L);ncalls++; }
    { double*P=dense(a*b),*Q=dense(b*c),*o=xm(sizeof(double)*a*c);naive_matmul_inplace(P,Q,o,a,b,c);use(o,a*c);free(o);o=xm(sizeof(double)*a*c);naive_matmul_inplace2(P,Q,o,a,b,c);use(o,a*c);free(P);free(Q);free(o);ncalls+=2; }
    { int k=ri(1,9),e=ri(1,9);double*P=dense(k),*o=xm(sizeof(double)*k*e);repeat_1d(P,k,e,o);use(o,k*e);free(o);o=xm(sizeof(double)*k*e);tile_1d_nested(P,k,e,o);use(o,k*e);free(o);
      double complex*z=xm(sizeof(*z)*k),*w=xm(sizeof(*w)*k*e);for(int q=0;q<k;q++)z[q]=P[q];tile_1d_nested_complex(z,k,e,w);use((double*)w,2*k*e);free(z);free(w);free(P);ncalls+=3; }
    fr(A);fr(B);
  }
  printf("calls %ld\n",ncalls); return 0; }
