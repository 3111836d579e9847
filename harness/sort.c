/* qsort and bsearch. Every result is a set of predicates computed here; the same program over glibc prints what is right. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "hash.h"
#ifdef I16
#define CAP 6000
#else
#define CAP 140000
#endif
#ifdef DOS
#define LONG 180
#define STEP1 20
#define ESTEP 100
#define BIGN 700
#else
#define LONG 1500
#define STEP1 100
#define ESTEP 13
#define BIGN 4000
#endif
#ifdef DOS
#define DS(x) ((x)<9?(x)+1:(x)+7)
#else
#define DS(x) ((x)+1)
#endif
#ifndef N1
#define N1 5
#endif
static unsigned char mem[CAP+64]; static unsigned char sv[CAP+64];
static unsigned es, en; static unsigned char*eb; static unsigned cmps; static int outside, mode, bad, depth; static void*thekey;
static unsigned kof(unsigned char*p){ return es==1?*p>>4:es==2?p[0]:p[0]|(unsigned)p[es-1]<<8; }
static void chk(void*p){ unsigned char*q=p; unsigned d;
#ifndef __GNUC__
 if(q<eb||q>=eb+en*es) outside=1; else { d=q-eb; if(d%es) outside=1; }
#endif
}
static int cmp(void*a,void*b){ unsigned x,y; int r; cmps++; chk(a); chk(b); x=kof(a); y=kof(b); r=(x>y)-(x<y);
 if(mode==1) return r<0?(-32767-1):r>0?32767:0; if(mode==2) return -r; if(mode==3) return (int)x-(int)y; if(mode==4) return 0;
#ifndef I16
 if(mode==5) return r*2147483647; if(mode==6) return r<0?(-2147483647-1):r;
#endif
 return r; }
static unsigned lim(unsigned n){ unsigned l=0, m=n; while(m){ l++; m>>=1; } return 3*n*l+10; }
/* element i: key k, tag i: key in byte 0 and the last, tag between, filler bytes that depend on key and tag */
static void mk(unsigned char*p,unsigned k,unsigned tag){ unsigned j; if(es==1){ *p=k<<4|(tag&15); return; } if(es==2){ p[0]=k; p[1]=tag; return; } for(j=0;j<es;j++) p[j]=j*7+tag*13+k; p[0]=k; p[es-1]=k>>8; p[1]=tag; if(es>3) p[2]=tag>>8; }
static unsigned tof(unsigned char*p){ return es==1?*p&15:es==2?p[1]:es>3?p[1]|p[2]<<8:p[1]; }
static unsigned char seen[4100];
static int verify(unsigned n){ unsigned i,j; int r=0; unsigned char e[80]; unsigned pk=0;
 memset(seen,0,n<4096?n:4096);
 for(i=0;i<n;i++){ unsigned char*p=eb+i*es; unsigned k=kof(p), t=tof(p); int s=(k>pk)-(k<pk);
  if(i&&mode!=4&&(mode==2?s>0:s<0)) r|=1; pk=k;
  if(t>=n){ r|=2; continue; } if(seen[t]++) r|=2; if(es<80){ mk(e,k,t); if(memcmp(e,p,es)) r|=4; if(memcmp(e,sv+t*es,es)) r|=4; } }
 for(i=0;i<16;i++) if(eb[-1-(int)i]!=0xEE||eb[n*es+i]!=0xEE) r|=8;
 if(outside) r|=16;
#ifndef __GNUC__
 if(n<2000&&cmps>lim(n)) r|=32;
#endif
 return r; }
static void go(unsigned n,unsigned*k,unsigned off){ unsigned i; eb=mem+32+off; en=n; memset(eb-16,0xEE,16); memset(eb+n*es,0xEE,16); for(i=0;i<n;i++) mk(eb+i*es,k[i],i); memcpy(sv,eb,n*es); cmps=0; outside=0; qsort(eb,n,es,(int(*)())cmp); }
static unsigned ks[4100];
static int bcmp_(void*a,void*b){ unsigned x,y; cmps++; if(a!=thekey) outside=1; chk(b); x=*(unsigned*)a; y=kof(b); if(mode==1) return x<y?(-32767-1):x>y?32767:0; return (x>y)-(x<y); }
static int inner; static int ncmp(void*a,void*b){ int s[5], i; static int z[5]={3,1,2,5,4}; int ic(void*,void*); cmps++; memcpy(s,z,sizeof s); if(++depth==1) qsort(s,5,sizeof(int),(int(*)())ic); depth--; for(i=0;i<5&&depth==0;i++) if(s[i]!=i+1) inner=1; { unsigned x=kof(a), y=kof(b); return (x>y)-(x<y); } }
int ic(void*a,void*b){ int x=*(int*)a, y=*(int*)b; return (x>y)-(x<y); }
int main(int argc,char**argv){ unsigned n,i,j,k,t,m; static unsigned sz[12]={1,2,3,4,5,6,7,8,9,12,16,33};
 start(argc,argv);
 /* every array of n elements over n keys */
 begin(); for(m=0;m<6;m++){ if(m&&m!=3&&m!=7) continue; es=sz[m]; for(n=0;n<=N1;n++) { unsigned char d[16]; memset(d,0,16); for(;;){ for(i=0;i<n;i++) ks[i]=d[i]; mode=0; go(n,ks,0); res("all arrays",n,es,0,verify(n)); for(i=0;i<n;i++){ if(++d[i]<n) break; d[i]=0; } if(i==n) break; } } } end();
 /* all 0-1 and 0-1-2 arrays of more elements */
 begin(); es=4; mode=0; for(n=N1+1;n<=N1+N1+(N1>5);n++){ for(t=0;t<1u<<n;t++){ for(i=0;i<n;i++) ks[i]=t>>i&1; go(n,ks,0); res("0-1 arrays",n,t,0,verify(n)); } }
 for(n=N1+1;n<=N1+2;n++){ unsigned char d[16]; memset(d,0,16); for(;;){ for(i=0;i<n;i++) ks[i]=d[i]; go(n,ks,0); res("0-1-2 arrays",n,0,0,verify(n)); for(i=0;i<n;i++){ if(++d[i]<3) break; d[i]=0; } if(i==n) break; } } end();
 /* element sizes, alignments, comparison results */
 begin(); for(es=1;es<=40;es=DS(es)) for(n=0;n<=12;n++) for(j=0;j<4;j++) for(k=0;k<5;k++) for(mode=0;mode<7;mode++){
#ifdef I16
  if(mode>4) continue;
#endif
  if(mode&&j) continue; for(i=0;i<n;i++) ks[i]=k==0?i:k==1?n-i:k==2?i*5%7:k==3?(i<n/2?i:n-i):3; if(mode==4) for(i=0;i<n;i++) ks[i]&=7; go(n,ks,j); res("sizes",n,es,j*100+k*10+mode,verify(n)); } end();
 /* long arrays */
 begin(); for(m=0;m<12;m+=3) { es=m<9?sz[m+1]:sz[m]; if(es<4) es=4; for(n=13;n<=LONG;n=n<STEP1?n+1:n*9/8) for(k=0;k<8;k++){ unsigned v=7;
  for(i=0;i<n;i++){ v=(v*75+74)%251; ks[i]=k==0?i:k==1?n-i:k==2?v:k==3?(i<n/2?i:n-i):k==4?i&1:k==5?(i*7)%n:k==6?v%3:(i==n/2?0:i+1); } mode=0; if(n*es<=CAP) { go(n,ks,0); res("long",n,es,k,verify(n)); } } } end();
#ifndef I16
 /* more than 64KB */
 begin(); for(es=33;es<80;es+=ESTEP) for(k=0;k<4;k++){ n=ESTEP>13?70000/es:100000/es; if(n>4000) n=4000; for(i=0;i<n;i++) ks[i]=k==0?i:k==1?n-i:k==2?i*7919%n:i&3; mode=0; go(n,ks,0); res("big",n,es,k,verify(n)); }
 for(es=5000;es<=40000;es+=(ESTEP>13?35000:17500)) { n=3; for(k=0;k<6;k++){ static unsigned P[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; go(n,P[k],0); res("big elements",n,es,k,verify(n)); } } end();
#else
 begin(); end();
#endif
 /* nested */
 begin(); es=4; for(n=0;n<=9;n++) for(k=0;k<3;k++){ for(i=0;i<n;i++) mk(mem+32+i*4,ks[i]=k==0?i:k==1?n-i:i*5%7,i); eb=mem+32; en=n; memcpy(sv,eb,n*4); memset(eb-16,0xEE,16); memset(eb+n*es,0xEE,16); inner=0; cmps=outside=0; depth=0; qsort(eb,n,es,(int(*)())ncmp); mode=0; res("nested",n,k,0,verify(n)|inner<<8); } end();
 /* bsearch: keys 2i+1 (with runs), every key wanted */
 begin(); for(mode=0;mode<2;mode++) for(m=0;m<12;m++){ es=sz[m]; if(es<2) continue; for(n=0;n<=(m==3?70:20);n++) for(k=1;k<=3;k++) for(t=0;t<=2*n+2;t++){ unsigned char*p; unsigned key=t; int r; eb=mem+32+(m&3); en=n; for(i=0;i<n;i++) mk(eb+i*es,2*(i/k)+1,i&255);
  thekey=&key; cmps=outside=0; p=bsearch(&key,eb,n,es,(int(*)())bcmp_); r=p!=NULL; if(p){ outside|=(p<eb||p>=eb+n*es); if(!outside){ if((p-eb)%es) r|=2; if(kof(p)!=key) r|=4; } } if(outside) r|=8; for(i=0,j=n;j;j>>=1) i++; 
#ifndef __GNUC__
  if(cmps>i+1) r|=16;
#endif
  res("bsearch",n,es,t*10+k,r); } } 
 for(es=1;es<5;es++){ unsigned key=1; thekey=&key; en=0; eb=mem; res("bsearch none",es,0,0,bsearch(&key,NULL,0,es,(int(*)())bcmp_)!=NULL); } end();
 begin(); for(n=100;n<=BIGN;n=n*5/3+1) for(es=2;es<=(CAP>9999?33:8);es=es*2+1) for(t=0;t<=2*n+1;t++){ unsigned char*p; unsigned key=t; int r; if(n*es>CAP) continue; if(es==2&&n>127) continue; eb=mem+32; en=n; if(!t) for(i=0;i<n;i++) mk(eb+i*es,2*i+1,i&255); thekey=&key; cmps=outside=0; mode=0; p=bsearch(&key,eb,n,es,(int(*)())bcmp_); r=p!=NULL; if(p&&kof(p)!=key) r|=4; if(outside) r|=8; res("bsearch long",n,es,t,r); } end();
 stop(); return 0; }
