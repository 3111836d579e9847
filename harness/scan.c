/* Runs the scanf family over enumerated inputs. IN.DAT: records; OUT.DAT: one block per case. */
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#ifndef SL
#define SL 16
#endif
#define NS 4
typedef struct { short ret, rem, diff; unsigned char slot[NS*SL]; } R;
static unsigned char fmt[80], al[40], in[300], ex[300], tmp[300];
static R r, q;
static FILE *fi, *fo;
static unsigned g2(void){ unsigned a=fgetc(fi); return a|(unsigned)fgetc(fi)<<8; }
#define S(i) (void*)(p->slot+(i)*SL)
static int vs(char*s,char*f,...){ va_list v; int t; va_start(v,f); t=vsscanf(s,f,v); va_end(v); return t; }
static int vf(FILE*s,char*f,...){ va_list v; int t; va_start(v,f); t=vfscanf(s,f,v); va_end(v); return t; }
static int vi(char*f,...){ va_list v; int t; va_start(v,f); t=vscanf(f,v); va_end(v); return t; }
static void put(unsigned n){ FILE*t=fopen("T.DAT","wb"); fwrite(in,1,n,t); fclose(t); }
static void one(unsigned n,int all,int file){
 R*p=&r; in[n]=0;
 memset(&r,0xA5,sizeof r); r.rem=-1; r.diff=0;
 r.ret=sscanf((char*)in,(char*)fmt,S(0),S(1),S(2),S(3));
 if(file){ FILE*t; p=&q; put(n); memset(&q,0xA5,sizeof q); t=fopen("T.DAT","rb");
  q.ret=fscanf(t,(char*)fmt,S(0),S(1),S(2),S(3)); r.rem=fread(tmp,1,sizeof tmp,t); if(memcmp(tmp,in+n-r.rem,r.rem)) r.diff|=64; fclose(t); if(q.ret!=r.ret||memcmp(q.slot,r.slot,NS*SL)) r.diff|=1; }
 if(all){ FILE*t; int k; p=&q;
  for(k=0;k<4;k++){ memset(&q,0xA5,sizeof q); 
   if(k==0) q.ret=vs((char*)in,(char*)fmt,S(0),S(1),S(2),S(3));
   else if(k==1){ t=fopen("T.DAT","rb"); q.ret=vf(t,(char*)fmt,S(0),S(1),S(2),S(3)); if(fread(tmp,1,sizeof tmp,t)!=r.rem) r.diff|=32; fclose(t); }
   else { if(!freopen("T.DAT","rb",stdin)) r.diff|=64; if(k==2) q.ret=scanf((char*)fmt,S(0),S(1),S(2),S(3)); else q.ret=vi((char*)fmt,S(0),S(1),S(2),S(3)); if(fread(tmp,1,sizeof tmp,stdin)!=r.rem) r.diff|=32; }
   if(q.ret!=r.ret||memcmp(q.slot,r.slot,NS*SL)) r.diff|=2<<k; } }
 fwrite(&r,1,sizeof r,fo);
}
int main(void){
 unsigned nr,na,L,nx,file,i,k,n;
 fi=fopen("IN.DAT","rb"); fo=fopen("OUT.DAT","wb");
 nr=g2();
 while(nr--){
  n=g2(); fread(fmt,1,n,fi); fmt[n]=0; na=g2(); fread(al,1,na,fi); L=g2(); nx=g2(); file=g2();
  if(na) for(n=0;n<=L;n++){ unsigned char d[12]; memset(d,0,sizeof d);
   for(;;){ for(k=0;k<n;k++) in[k]=al[d[k]]; one(n,0,file); for(k=0;k<n;k++){ if(++d[k]<na) break; d[k]=0; } if(k==n) break; } }
  for(i=0;i<nx;i++){ n=g2(); fread(in,1,n,fi); one(n,1,1); }
 }
 fclose(fo); return 0;
}
