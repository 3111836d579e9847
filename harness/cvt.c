/* Number parsing: strtol, strtoul, atoi, atol, strtof, strtod, atof. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include "hash.h"
#ifdef __GNUC__
/* the reference: 32-bit long on top of the host's */
static long l32(char*s,char**e,int b){ long v; errno=0; v=strtol(s,e,b); if(v>2147483647L||v<-2147483648L){ errno=ERANGE; v=v>0?2147483647L:-2147483648L; } return v; }
static unsigned long u32(char*s,char**e,int b){ char*t=s; int neg=0; unsigned long v; errno=0; v=strtoul(s,e,b); if(errno) return 0xffffffffUL; while(*t==' '||*t=='\t'||*t=='\n'||*t=='\v'||*t=='\f'||*t=='\r') t++; neg=*t=='-'; if(neg) v=-v; if(v>0xffffffffUL){ errno=ERANGE; return 0xffffffffUL; } return (neg?-v:v)&0xffffffffUL; }
#define strtol l32
#define strtoul u32
#define strtod strtof
#define atof(s) strtof(s,NULL)
#endif
static char b[300];
#ifndef I16
static unsigned fb(float f){ unsigned u; memcpy(&u,&f,4); return u; }
static void str_(char*s){ if(want==grp) fprintf(o,"'%s' ",s); }
static void tol(char*s,int base){ char*e=0; long v; unsigned long u;
 errno=0; v=strtol(s,&e,base); str_(s); res("strtol",base,(int)(e-s),errno==ERANGE,(int)(v&0xffff)); res("hi",base,0,0,(int)((v>>16)&0xffff)); add((int)(e-s)); add(errno==ERANGE);
 errno=0; e=0; u=strtoul(s,&e,base); str_(s); res("strtoul",base,(int)(e-s),errno==ERANGE,(int)(u&0xffff)); res("hi",base,0,0,(int)((u>>16)&0xffff)); add((int)(e-s)); add(errno==ERANGE);
 if(base==10) { errno=0; strtol(s,NULL,10); add(errno==ERANGE); }
}
static void tof(char*s){ char*e=0; float v; unsigned u; int er; errno=0; v=strtof(s,&e); er=errno==ERANGE; u=fb(v);
 if((u&0x7f800000)==0) er=0; /* whether underflow is reported is up to the implementation */
 if((u&0x7fffffff)>0x7f800000) u=0x7fc00000;
 str_(s); res("strtof",(int)(e-s),er,(int)(u>>16),(int)(u&0xffff)); add((int)(e-s)); add(er); add((int)(u>>16)); }
#endif
#ifdef __GNUC__
static int powi(int a,int n){ int r=1; while(n--) r*=a; return r; }
#else
#ifndef I16
static int powi(int a,int n){ int r=1; while(n--) r*=a; return r; }
#endif
#endif
static void num(unsigned v,int base,char*p){ char t[40]; int i=0; do { int d=v%base; t[i++]=d<10?'0'+d:'a'+d-10; v/=base; } while(v); while(i) *p++=t[--i]; *p=0; }
int main(int argc,char**argv){
 int i,k,n; int j;
 start(argc,argv);
 begin(); { static char al[8]=" +-0189a"; int t;
#ifdef I16
  for(n=0;n<=4;n++){ int tot=1; for(i=0;i<n;i++) tot*=8; for(i=0;i<tot;i++){ int v=i; for(k=0;k<n;k++){ b[k]=al[v&7]; v>>=3; } b[n]=0; t=atoi(b); if(want==grp) fprintf(o,"'%s' ",b); res("atoi",0,0,0,t); } }
  { static char*s[14]={"32767","-32768","-32767","\t\n\v\f\r 12","12\t","000000000123","-000000000123","+32767","32766x","-32768.","1 2","- 1","+-1","--1"}; for(i=0;i<14;i++) res("atoi",1,i,0,atoi(s[i])); }
#else
  for(n=0;n<=5;n++){ int tot=powi(8,n); for(i=0;i<tot;i++){ int v=i; for(k=0;k<n;k++){ b[k]=al[v&7]; v>>=3; } b[n]=0; t=atoi(b); str_(b); res("atoi",0,0,0,t); add(t>>16); t=atol(b); res("atol",0,0,0,t); add(t>>16); } }
  { static char*s[14]={"2147483647","-2147483648","-2147483647","\t\n\v\f\r 12","12\t","000000000123","-000000000123","+2147483647","2147483646x","-2147483648.","1 2","- 1","+-1","--1"}; for(i=0;i<14;i++){ t=atoi(s[i]); res("atoi",1,i,0,t); add(t>>16); t=atol(s[i]); res("atol",1,i,0,t); add(t>>16); } }
#endif
 } end();
#ifndef I16
 begin(); { static char al[12]=" +-019xXazfg"; static int bs[6]={0,2,8,10,16,36};
  for(n=0;n<=LEN;n++){ int tot=powi(12,n); for(i=0;i<tot;i++){ int v=i; for(k=0;k<n;k++){ b[k]=al[v%12]; v/=12; } b[n]=0; for(j=0;j<6;j++) tol(b,bs[j]); } } } end();
 begin(); { static unsigned vals[16]={0,1,0x7ffffffe,0x7fffffff,0x80000000,0x80000001,0xfffffffe,0xffffffff,0x19999999,0x1999999a,0xccccccc,0x12345678,0x10000,0xffff,0x55555555,0xaaaaaaab}; static char*pre[9]={"","-","+"," \t-","0","-000","0x","-0X","\n+0x"}; static char*post[6]={"","0","1","00","!","z"};
  for(j=2;j<=36;j++) for(i=0;i<16;i++) for(k=0;k<9;k++) for(n=0;n<6;n++){ strcpy(b,pre[k]); num(vals[i],j,b+strlen(b)); strcat(b,post[n]); tol(b,j); if(j==8||j==10||j==16) tol(b,0); } } end();
 begin(); { static char al[9]="+-.01e9E "; for(n=0;n<=FLEN;n++){ int tot=powi(9,n); for(i=0;i<tot;i++){ int v=i; for(k=0;k<n;k++){ b[k]=al[v%9]; v/=9; } b[n]=0; tof(b); } } } end();
 begin(); { static char*w[9]={"inf","INFINITY","nan","iNf","infinit","NAN","in","na","infinityx"}; static char*pre[5]={"","-","+"," ","x"}; for(i=0;i<9;i++) for(j=0;j<5;j++){ strcpy(b,pre[j]); strcat(b,w[i]); tof(b); strcat(b,"."); tof(b); } } end();
 begin(); { static char*m[14]={"1","9.99","1.17549435","3.4028234","3.4028236","1.4012984","7.0064923e-1","2.5","16777217","33554431","0.00001","123456789012345678901234567890","5","0.000"}; static char*ex[12]={"0","10","-10","37","38","39","-37","-38","-44","-45","-46","-60"}; static char*s[3]={"","-","+"};
  for(i=0;i<14;i++) for(j=0;j<12;j++) for(k=0;k<3;k++){ if(strchr(m[i],'e')) continue; strcpy(b,s[k]); strcat(b,m[i]); strcat(b,k==2?"E":"e"); if(k==2&&ex[j][0]!='-') strcat(b,"+"); strcat(b,ex[j]); tof(b); strcat(b,"z"); tof(b); }
  { static char*h[14]={"1e400","1e-400","-1e999","0e999","0e-999","1e2147483647","1e-2147483648","1e99999999999","1e-99999999999","0e99999999999","1e4294967296x","-0.0","0000000000000000000000000000000000000001e38","1e+00000000000000000000000000000000000005"}; for(i=0;i<14;i++) tof(h[i]); } } end();
 /* the strings of a file: exact midpoints between floats and their neighbours */
 begin(); { FILE*f=fopen("IN.TXT","r"); int line=0; float v; if(f){ while(fgets(b,300,f)){ int l=(int)strlen(b); if(l&&b[l-1]=='\n') b[l-1]=0; tof(b); if(++line%16==0){ v=strtod(b,NULL); res("strtod",0,0,(int)(fb(v)>>16),(int)(fb(v)&0xffff)); v=atof(b); res("atof",0,0,(int)(fb(v)>>16),(int)(fb(v)&0xffff)); } } fclose(f); } } end();
#endif
 stop();
 return 0;
}
