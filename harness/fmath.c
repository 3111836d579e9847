/* Math functions. IN.DAT: fn, mode, start, n (32-bit each), then the arguments (mode 0: x; mode 2: x, y). OUT.DAT: result, second result or errno. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <math.h>
#define CH 1024
static unsigned in[2*CH], out[2*CH], hd[4];
static float a, b, r, ip; static int e;
static unsigned bits(float f){ unsigned u; memcpy(&u,&f,4); return u; }
static float flt(unsigned u){ float f; memcpy(&f,&u,4); return f; }
int main(void){ FILE*fi=fopen("IN.DAT","rb"), *fo=fopen("OUT.DAT","wb"); unsigned i, n, k, two;
 while(fread(hd,4,4,fi)==4){ two=hd[1]==2;
  for(k=0;k<hd[3];k+=n){ n=hd[3]-k; if(n>CH) n=CH;
   if(hd[1]==1) for(i=0;i<n;i++) in[i]=hd[2]+k+i; else if(fread(in,two?8:4,n,fi)!=n) return 3;
   for(i=0;i<n;i++){ if(two){ memcpy(&a,in+2*i,4); memcpy(&b,in+2*i+1,4); } else memcpy(&a,in+i,4);
    errno=0; e=0;
    switch(hd[0]){
    case 0: r=fabsf(a); break; case 1: r=floorf(a); break; case 2: r=ceilf(a); break; case 3: r=truncf(a); break; case 4: r=roundf(a); break; case 5: r=sqrtf(a); break;
    case 6: e=77; r=frexpf(a,&e); break; case 7: ip=5; r=modff(a,&ip); memcpy(&e,&ip,4); break;
    case 8: r=expf(a); break; case 9: r=exp2f(a); break; case 10: r=expm1f(a); break; case 11: r=logf(a); break; case 12: r=log2f(a); break; case 13: r=log10f(a); break;
    case 14: r=sinf(a); break; case 15: r=cosf(a); break; case 16: r=tanf(a); break; case 17: r=asinf(a); break; case 18: r=acosf(a); break; case 19: r=atanf(a); break;
    case 20: r=sinhf(a); break; case 21: r=coshf(a); break; case 22: r=tanhf(a); break;
    case 30: r=fabs(a); break; case 31: r=floor(a); break; case 32: r=ceil(a); break; case 33: r=trunc(a); break; case 34: r=round(a); break; case 35: r=sqrt(a); break;
    case 36: e=77; r=frexp(a,&e); break; case 37: { double d=5; r=modf(a,&d); ip=d; memcpy(&e,&ip,4); break; }
    case 38: r=exp(a); break; case 39: r=exp2(a); break; case 40: r=expm1(a); break; case 41: r=log(a); break; case 42: r=log2(a); break; case 43: r=log10(a); break;
    case 44: r=sin(a); break; case 45: r=cos(a); break; case 46: r=tan(a); break; case 47: r=asin(a); break; case 48: r=acos(a); break; case 49: r=atan(a); break;
    case 50: r=sinh(a); break; case 51: r=cosh(a); break; case 52: r=tanh(a); break;
    case 60: r=fmodf(a,b); break; case 61: r=ldexpf(a,(int)in[2*i+1]); break; case 62: r=powf(a,b); break; case 63: r=atan2f(a,b); break; case 64: r=hypotf(a,b); break;
    case 70: r=fmod(a,b); break; case 71: r=ldexp(a,(int)in[2*i+1]); break; case 72: r=pow(a,b); break; case 73: r=atan2(a,b); break; case 74: r=hypot(a,b); break;
    default: return 4; }
    memcpy(out+2*i,&r,4); if(!e) e=errno==EDOM?0x10001:errno==ERANGE?0x10002:errno?0x10003:0; out[2*i+1]=e; }
   if(fwrite(out,8,n,fo)!=n) return 5; } }
 fclose(fo); return 0; }
