/* Explores all sequences of heap operations to a depth, checking the heap's promises after each step. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define NS 3
static unsigned char*p[NS]; static unsigned sz[NS]; static unsigned char fillb[NS]; static int np;
static char seq[16]; static int sl; static int depth, limited; static unsigned dosmax;
static unsigned sizes[5]={1,16,17,48,200};
static unsigned rsizes[4]={1,16,60,200};
static int next=1; static char*lo;
#ifdef _LINUX
#define ALIGN 16
static int sys3(int n,int a,int b,int c){ asm("mov eax,[ebp+8]\nmov ebx,[ebp+12]\nmov ecx,[ebp+16]\nmov edx,[ebp+20]\nint 0x80"); }
static int sysmmap(int*a){ asm("mov eax,90\nmov ebx,[ebp+8]\nint 0x80"); }
static unsigned brk_(void){ return sys3(45,0,0,0); }
struct sh { unsigned nodes, leaves, viol; }; static struct sh *S; static struct sh SS;
#else
#ifdef __SMALLER_C_16__
#define ALIGN 8
#else
#ifdef __HUGE__
#define ALIGN 16
#else
#ifdef __UNREAL__
#define ALIGN 16
#else
#define ALIGN 16
#endif
#endif
#endif
struct sh { unsigned nodes, leaves, viol; }; static struct sh SS; static struct sh *S=&SS;
#endif
static void viol(char*w,int a){ if(S->viol++<5){ printf("V %.*s: %s (%d)\n",sl,seq,w,a); fflush(stdout);} }
static void fill(int i){ unsigned k; fillb[i]=next*37+11; next++; for(k=0;k<sz[i];k++) p[i][k]=(unsigned char)(fillb[i]+k); }
static int intact(int i,unsigned n){ unsigned k; for(k=0;k<n;k++) if(p[i][k]!=(unsigned char)(fillb[i]+k)) return 0; return 1; }
static void placed(int i){
 int j; if((unsigned)p[i]%ALIGN) viol("misaligned block",i);
#ifdef _LINUX
 if((char*)p[i]<lo||(unsigned)p[i]+sz[i]>brk_()||(unsigned)p[i]+sz[i]<(unsigned)p[i]) viol("block outside of the heap",i);
#endif
 for(j=0;j<NS;j++) if(j!=i&&p[j]&&p[i]<p[j]+sz[j]&&p[j]<p[i]+sz[i]) viol("overlapping blocks",i);
}
static int slot(void){ int i; for(i=0;i<NS;i++) if(!p[i]) return i; return -1; }
static void all(void){ int i; for(i=0;i<NS;i++) if(p[i]&&!intact(i,sz[i])) viol("contents of a live block changed",i); }
/* 0: not applicable here */
static int doit(int op,int quiet){
 int i,k; unsigned char*q; unsigned n;
 if(op<7){
  i=slot(); if(i<0) return 0;
  if(op<5) q=malloc(n=sizes[op]); else if(op==5){ q=calloc(3,n=7); n=21; } else q=realloc(NULL,n=20);
  if(!q){ if(!limited) viol("request refused",op); return 1; }
  p[i]=q; sz[i]=n; placed(i);
  if(op==5) for(k=0;k<21;k++) if(q[k]){ viol("calloc memory not zero",k); break; }
  fill(i); return 1;
 }
 if(op==7){
  free(NULL);
#ifdef __SMALLER_C_16__
  if(malloc(0xffff)||malloc(0xfff0)||malloc(0xffef)||malloc(0xfff8)||malloc(0xfff7)||malloc(0xff00)||calloc(256,256)||calloc(257,255)||calloc(2,0x8001)||calloc(0x4001,4)) viol("impossible request granted",0);
#else
  if(malloc(0xffffffff)||malloc(0xfffffff0)||malloc(0xfffffff1)||malloc(0xffffffef)||malloc(0xffffffe0)||malloc(0xffffffdf)||malloc(0xffffff80)||malloc(0xfffffe00)||malloc(0xfffff000)||malloc(0xf0000000)) viol("impossible request granted",0);
  if(calloc(0x10000,0x10000)||calloc(0x10001,0x10000)||calloc(2,0x80000001)||calloc(0x40000001,4)||calloc(0xffffffff,0xffffffff)||calloc(0xffffffe0,1)) viol("overflowing calloc granted",0);
#endif
  if(malloc(0)&&0) return 1;
  return 1;
 }
 if(op<8+NS){ i=op-8; if(!p[i]) return 0; free(p[i]); p[i]=NULL; return 1; }
 op-=8+NS;
 i=op/5; k=op%5; if(i>=NS||!p[i]) return 0;
 if(k==4){
#ifdef __SMALLER_C_16__
  if(realloc(p[i],0xffff)||realloc(p[i],0xfff0)||realloc(p[i],0xffef)||realloc(p[i],0xff00)) viol("impossible realloc granted",i);
#else
  if(realloc(p[i],0xffffffff)||realloc(p[i],0xfffffff0)||realloc(p[i],0xffffffe0)||realloc(p[i],0xffffff80)||realloc(p[i],0xf0000000)) viol("impossible realloc granted",i);
#endif
  return 1;
 }
 n=rsizes[k];
 q=realloc(p[i],n);
 if(!q){ if(!limited||n<=sz[i]) viol("realloc refused",i); return 1; }
 p[i]=q; if(!intact(i,n<sz[i]?n:sz[i])) viol("realloc lost contents",i);
 sz[i]=n; placed(i); fill(i); return 1;
}
#define NOPS (8+NS+NS*5)
static void freeall(void){ int i; for(i=0;i<NS;i++) if(p[i]){ free(p[i]); p[i]=NULL; } }
static unsigned most(void){ unsigned a=0,b=0xffe0,m; void*q;
#ifdef __HUGE__
 return 0;
#endif
#ifdef __UNREAL__
 return 0;
#endif
 while(a<b){ m=a+(b-a+1)/2; q=malloc(m); if(q){ free(q); a=m; } else b=m-1; } return a; }
#ifdef FORK
static int repeat(void){
 int r,k; unsigned b1=0,b2; 
 freeall();
 for(r=0;r<3;r++){ for(k=0;k<sl;k++) doit(seq[k]-'A',1); freeall(); b2=brk_(); if(r==0) b1=b2; }
 if(b2!=b1) viol("a repeated pattern grows the heap",b2-b1);
 return 0;
}
static void go(void){
 int op,st,pid;
 for(op=0;op<NOPS;op++){
  if(op>=8&&op<8+NS&&!p[op-8]) continue;
  if(op>=8+NS&&!p[(op-8-NS)/5]) continue;
  if(op<7&&slot()<0) continue;
  pid=sys3(2,0,0,0);
  if(pid<0){ S->viol++; printf("V fork failed\n"); return; }
  if(!pid){
   seq[sl++]='A'+op; S->nodes++;
   doit(op,0); all();
   if(sl<depth) go(); else { S->leaves++; }
   if(sl>1||depth==1) { all(); repeat(); }
   _Exit(0);
  }
  st=0; sys3(7,pid,(int)&st,0);
  if(st){ seq[sl]='A'+op; sl++; viol("crash",st); sl--; }
 }
}
int main(int argc,char**argv){
 int a[6],first=atoi(argv[2]),lim,x,b; int rl[2];
 depth=atoi(argv[1]); lim=atoi(argv[3]);
 a[0]=0; a[1]=4096; a[2]=3; a[3]=0x21; a[4]=-1; a[5]=0; S=(struct sh*)sysmmap(a);
 lo=(char*)brk_();
 if(lim){
  /* find a data limit that lets the heap grow by about lim bytes only */
  int hi=1<<24,l=0,m; limited=1;
  while(l<hi){ m=(l+hi)/2; rl[0]=rl[1]=m; rl[1]=1<<30; sys3(75,2,(int)rl,0); if(sys3(45,(int)lo+lim,0,0)==(int)lo+lim){ sys3(45,(int)lo,0,0); hi=m; } else l=m+1; }
  rl[0]=l; sys3(75,2,(int)rl,0);
 }
 seq[sl++]='A'+first; 
 doit(first,0); all(); S->nodes++;
 if(depth>1) go();
 sl=1; repeat();
 printf("T %u %u %u\n",S->nodes,S->leaves,S->viol);
 return 0;
}
#else
static int first1=-1;
static void go(int d){
 int op,k,ok;
 for(op=0;op<NOPS;op++){
  if(!d&&first1>=0&&op!=first1) continue;
  seq[d]=op+'A';
  sl=0; ok=1;
  for(k=0;k<=d;k++){ sl=k+1; if(!doit(seq[k]-'A',0)){ ok=0; break; } }
  if(ok){ all(); S->nodes++; sl=d+1; }
  freeall();
  if(!ok) continue;
  { unsigned m; void*q=malloc(dosmax); if(!q&&dosmax) viol("freed memory cannot be used again",dosmax); free(q); }
  if(d+1<depth) go(d+1);
 }
}
int main(int argc,char**argv){
 depth=atoi(argv[1]); limited=0; if(argc>2) first1=atoi(argv[2]);
#ifdef _LINUX
 lo=(char*)brk_(); S=&SS;
#else
 freopen("OUT.TXT","w",stdout);
 printf("heap "); /* allocates the buffer */
 dosmax=most();
 printf("max %u\n",dosmax);
#endif
 go(0);
 /* exhaustion: blocks until refused, all usable, then everything can be had again */
 { static unsigned char*b[64]; int i,j,k; for(i=0;i<64;i++){ b[i]=malloc(3001); if(!b[i]) break; for(j=0;j<3001;j++) b[i][j]=i+j; }
   for(j=0;j<i;j++){ for(k=0;k<3001;k++) if(b[j][k]!=(unsigned char)(j+k)){ viol("blocks overlap when memory runs out",j); break; } }
   for(j=0;j<i;j+=2) free(b[j]); for(j=1;j<i;j+=2) free(b[j]);
   { void*q=malloc(dosmax); sl=0; if(!q&&dosmax) viol("memory lost after exhaustion",i); free(q); }
   printf("X %d\n",i); }
 printf("T %u %u %u\n",S->nodes,0,S->viol);
 return 0;
}
#endif
