/* Formatted output: every combination of flags, width, precision, length modifier and conversion over boundary values. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include "hash.h"
static char b[700], g[700], b2[700];
static int lit; /* literal text around the conversion? */
#ifdef __GNUC__
/* the host's long is wider: drop the length modifiers that mean int here */
static char*hostfmt(char*f){ static char t[100]; char*p=t; int in=0; for(;*f;f++){ if(*f=='%') in=!in; else if(in&&strchr("diouxXcspneEfFgG",*f)) in=0; if(in&&strchr("ljztL",*f)) continue; *p++=*f; } *p=0; return t; }
#else
#define hostfmt(f) f
#endif
static void rec(char*fmt,int r){ int i; unsigned x=1; for(i=0;b[i]&&i<690;i++) x=(x*33+(b[i]&255))&0xffff; if(want==grp) fprintf(o,"\"%s\" %d -> %d [%s]\n",fmt,0,r,b); add(r); add((int)x); }
static int isw, isp, wv, pv;
static void one_i(char*fmt,int v){ int r; char*h=hostfmt(fmt); memset(b,'?',100); b[100]=0;
 if(isw&&isp) r=sprintf(b,h,wv,pv,v); else if(isw) r=sprintf(b,h,wv,v); else if(isp) r=sprintf(b,h,pv,v); else r=sprintf(b,h,v); rec(fmt,r); }
static void one_s(char*fmt,char*v){ int r; char*h=hostfmt(fmt); memset(b,'?',100); b[100]=0;
 if(isw&&isp) r=sprintf(b,h,wv,pv,v); else if(isw) r=sprintf(b,h,wv,v); else if(isp) r=sprintf(b,h,pv,v); else r=sprintf(b,h,v); rec(fmt,r); }
#ifndef I16
static float ff(unsigned u){ float f; memcpy(&f,&u,4); return f; }
static void one_f(char*fmt,float v){ int r; char*h=hostfmt(fmt); memset(b,'?',100); b[100]=0;
#ifdef __GNUC__
 /* glibc drops the zeroes of %#g when rounding carries into another digit; take %#g from its definition instead */
 { char*q=strrchr(h,'g'); if(!q) q=strrchr(h,'G'); if(q&&strchr(h,'#')&&v-v==0){ int P,X,W=0; char t[60],nf[40],*z,*y=nf; char*pd;
   for(z=strchr(h,'%');*z=='%'||strchr("-+ #0",*z);z++) *y++=*z; 
   if(*z=='*'){ W=wv; z++; } else while(*z>='0'&&*z<='9') W=W*10+*z++-'0'; 
   P=-1; if(*z=='.'){ z++; P=0; if(*z=='*') P=pv; else P=atoi(z); } if(P<0) P=6; if(!P) P=1;
   snprintf(t,60,"%.*e",P-1,v); X=atoi(strchr(t,'e')+1); sprintf(y,"*.*%c%s",P>X&&X>=-4?(*q=='g'?'f':'F'):(*q=='g'?'e':'E'),q+1);
   strcpy(y=t,""); pd=lit?"<":""; r=sprintf(b,"%s",pd); { char nf2[44]; strcpy(nf2,nf); r+=sprintf(b+r,nf2,W,P>X&&X>=-4?P-1-X:P-1,v); } rec(fmt,r); return; } }
#endif
 if(isw&&isp) r=sprintf(b,h,wv,pv,v); else if(isw) r=sprintf(b,h,wv,v); else if(isp) r=sprintf(b,h,pv,v); else r=sprintf(b,h,v); rec(fmt,r); }
static unsigned fv[]={0,0x80000000,0x3f800000,0xbf800000,0x3f000000,0x3fc00000,0x40200000,0x3e800000,0x3dcccccd,0x41180000,0x411fd70a,0x42c7ffff,0x42c70000,0x42c78000,0x447a0000,0x4479f99a,0x4479fff0,0x4479e000,0x47c34fc0,0x47c35000,0x49742400,0x497423f8,0x497423f0,0x49742408,0x4b800000,0x4b7fffff,0x501502f9,0x7f7fffff,0xff7fffff,0x00800000,0x007fffff,1,3,0x80000001,0x7f800000,0xff800000,0x7fc00000,0xffc00000,0x38d1b717,0x38d1b716,0x37a7c5ac,0x3a83126f,0x3cf5c28f,0x3f7fffff,0x3f7ff972,0x40b00000,0x3f733333,0x5f000000,0x4f000000,0x322bcc77,0x41200000,0x3f19999a,0x40490fdb};
#endif
static void mk(char*fmt,int fl,char*w,char*p,char*m,int c){ char*q=fmt; isw=*w=='*'; isp=p[0]&&p[1]=='*'; wv=isw?(w[1]=='-'?-7:9):0; pv=isp?(p[2]=='-'?-2:3):0;
 if(lit) *q++='<'; *q++='%'; if(fl&1) *q++='-'; if(fl&2) *q++='+'; if(fl&4) *q++=' '; if(fl&8) *q++='#'; if(fl&16) *q++='0';
 if(isw) *q++='*'; else { strcpy(q,w); q+=strlen(w); } if(isp){ *q++='.'; *q++='*'; } else { strcpy(q,p); q+=strlen(p); } strcpy(q,m); q+=strlen(m); *q++=c; if(lit) *q++='>'; *q=0; }
static char*ws[]={"","1","5","13","*","*-","2","40"};
static char*ps[]={"",".",".1",".4",".*",".*-",".0",".12",".2"};
static int va_to(char*fmt,int n,...){ va_list ap; int r; va_start(ap,n); r=n<0?vsprintf(b,fmt,ap):vsnprintf(b,n,fmt,ap); va_end(ap); return r; }
static int va_file(FILE*f,char*fmt,...){ va_list ap; int r; va_start(ap,fmt); r=vfprintf(f,fmt,ap); va_end(ap); return r; }
int main(int argc,char**argv){
 int fl,w,p,m,v,k,n; char fmt[64]; static char*ms[]={"","hh","h","l","j","z","t"}; static char cv[7]="diouxX";
 static int iv[]={0,1,-1,7,-7,8,9,10,-10,99,100,127,128,-128,-129,255,256,1000,4095,32767,-32767-1,-32767,12345
#ifndef I16
 ,0x7fffffff,-0x7fffffff-1,0x12345678,65535,65536,-65536,32768,-32769,1000000000,0x55555555
#endif
 };
 int NV=sizeof iv/sizeof iv[0];
 start(argc,argv);
 for(k=0;k<6;k++){ begin(); { static int umask; int c=cv[k]; for(fl=0;fl<32;fl++){ if((c=='d'||c=='i'||c=='u')&&(fl&8)) continue; if(c!='d'&&c!='i'&&(fl&6)&&(fl&6)!=6) continue;
   lit=(fl&1);
   for(w=0;w<NW;w++) for(p=0;p<NP;p++) for(m=0;m<7;m++){
#ifdef I16
    if(m==3) continue;
#endif
    if(m>3&&(fl||w>1||p>1)) continue;
    mk(fmt,fl,ws[w],ps[p],ms[m],c); for(v=0;v<NV;v+=(m?3:1)){ int x=iv[v];
#ifdef I16
#ifdef __GNUC__
     if(c!='d'&&c!='i') x&=0xffff;
#endif
#endif
     one_i(fmt,x); } } } } end(); }
 begin(); lit=1; { static int cs[]={'a',' ',255,0x141,'%'}; for(fl=0;fl<2;fl++) for(w=0;w<8;w++) for(v=0;v<5;v++){ mk(fmt,fl,ws[w],"","",'c'); one_i(fmt,cs[v]); }
  /* a zero character */ n=sprintf(b,"x%cy",0); add(n); add(b[0]); add(b[1]); add(b[2]); add(b[3]); } end();
 begin(); { static char*ss[]={"","a","hello","hello, world 12345","%d%s","\xff\x80"}; for(fl=0;fl<2;fl++) for(w=0;w<8;w++) for(p=0;p<9;p++) for(v=0;v<6;v++){ mk(fmt,fl,ws[w],ps[p],"",'s'); one_s(fmt,ss[v]); }
  { static char nt[4]={'a','b','c','d'}; memset(b,0,9); n=sprintf(b,"%.4s|%.3s|%.0s|",nt,nt,nt); rec("notterm",n); } } end();
 /* snprintf: every size, nothing written beyond it */
 begin(); { static char*fs[6]={"%d","abc%sdef","%-10d|","%010d","%x%c%s","plain text"}; for(k=0;k<6;k++) for(n=0;n<24;n++){ int r; memset(b,'#',64); b[64]=0;
   r=k==1?snprintf(b,n,fs[k],"XYZ"):k==4?snprintf(b,n,fs[k],0x7abc,'q',"tail"):snprintf(b,n,fs[k],-12345); rec(fs[k],r);
   memset(b,'#',64); b[64]=0; r=k==1?va_to(fs[k],n,"XYZ"):k==4?va_to(fs[k],n,0x7abc,'q',"tail"):va_to(fs[k],n,-12345); rec(fs[k],r);
   { int j; unsigned x=0; for(j=0;j<64;j++) x=(x*3+(b[j]&255))&0x7fff; res("image",k,n,0,(int)x); }
   memset(b,'#',64); b[64]=0; r=k==1?va_to(fs[k],-1,"XYZ"):k==4?va_to(fs[k],-1,0x7abc,'q',"tail"):va_to(fs[k],-1,-12345); rec(fs[k],r); }
  b[0]=0; n=snprintf(NULL,0,"%s%d","abc",7); rec("null",n); } end();
 /* %n and several conversions: arguments are stepped over correctly */
 begin(); { int a1=-5,a2=-5; short s1=-5; signed char c1=-5; n=sprintf(b,"ab%ncd%5d%n%hnx%hhn",&a1,42,&a2,&s1,&c1); rec("n",n); res("n",a1,a2,s1,c1); add(a1); add(a2); add(s1);
  n=sprintf(b,"100%%%%d%%"); rec("pct",n); n=sprintf(b,"%d%%%s%%",3,"x"); rec("pct2",n); n=sprintf(b,""); rec("empty",n);
  n=sprintf(b,"%d %d %d %d %d %d %d %d",1,2,3,4,5,6,7,8); rec("many",n);
  for(k=0;k<125;k++){ int j,q=k; char*f=fmt; static char kn[5]="dsxcu"; int ai[3]; for(j=0;j<3;j++){ *f++='%'; if(j==1) *f++='3'; *f++=kn[q%5]; ai[j]=q%5; q/=5; *f++='|'; } *f=0;
   /* strings and integers are the same size here; the host passes them in registers alike */
   { static char*str="st"; 
#define A(j,i) (ai[j]==1?(void*)str:(void*)(LI)(i))
   n=sprintf(b,fmt,A(0,'A'),A(1,300),A(2,-2)); 
   if(ai[2]==0||ai[2]==1||ai[2]==3) rec(fmt,n); } } } end();
 /* to files */
 begin(); { FILE*f=fopen("P.TXT","wb"); int r1,r2; r1=fprintf(f,"%s %05d|%-6s|%c",  "start",-42,"ab",'!'); r2=va_file(f,"%x %o",255,8); fclose(f); f=fopen("P.TXT","rb"); n=(int)fread(b,1,100,f); b[n]=0; fclose(f); rec("file",r1); res("r",n,0,0,r2);
  f=freopen("P.TXT","wb",stdout); r1=printf("[%d %s]",7,"seven"); r2=puts("line"); fflush(stdout); fclose(stdout); f=fopen("P.TXT","rb"); n=(int)fread(b,1,100,f); b[n]=0; fclose(f); rec("stdout",r1); res("p",n,0,0,r2>=0); } end();
#ifndef I16
 { static char fc[7]="eEfFgG"; for(k=0;k<6;k++){ begin(); for(fl=0;fl<32;fl++) for(w=0;w<FW;w++) for(p=0;p<FP;p++){ lit=fl&1; mk(fmt,fl,w==3?"*":w==2?"17":w==1?"5":"",ps[p],k==3?"L":k==1?"l":"",fc[k]); if(fmt[0]&&strchr(fmt,'L')){ char*q=strchr(fmt,'L'); memmove(q,q+1,strlen(q)); }
   for(v=0;v<(int)(sizeof fv/sizeof fv[0]);v++) one_f(fmt,ff(fv[v])); }
   { static char*xp[5]={".20",".45",".60",".150",".9"}; isw=isp=0; lit=0; for(p=0;p<5;p++) for(v=0;v<(int)(sizeof fv/sizeof fv[0]);v++){ mk(fmt,0,"",xp[p],"",fc[k]); one_f(fmt,ff(fv[v])); } }
   end(); } }
 begin(); { int e; isw=isp=0; for(e=0;e<255;e++){ static unsigned mm[4]={0,1,0x7fffff,0x2aaaaa}; for(k=0;k<4;k++){ float f=ff((unsigned)e<<23|mm[k]); one_f("%e",f); one_f("%g",f); one_f("%.8e",f); one_f("%.0e",f); if(e<200){ one_f("%f",f); one_f("%.0f",f); one_f("%.1f",f);} } } } end();
 begin(); n=sprintf(b,"%d %f %s %g %c",1,2.5f,"three",4.25f,'5'); rec("mixed",n); n=sprintf(b,"%f%d%f",1.0f,2,3.0f); rec("mixed",n); end();
#endif
 stop();
 return 0;
}
