/* Calendar functions; gcc/glibc with TZ=UTC prints what is right. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include "hash.h"
#ifdef __GNUC__
typedef unsigned tt;
static struct tm*gm(tt*t){ time_t x=*t; return gmtime(&x); }
static struct tm*lt(tt*t){ time_t x=*t; return localtime(&x); }
static char*ct(tt*t){ time_t x=*t; return ctime(&x); }
static tt mk(struct tm*p){ return mktime(p); }
static float df(tt a,tt b){ return difftime(a,b); }
#else
#ifndef I16
typedef time_t tt;
static struct tm*gm(tt*t){ return gmtime(t); }
static struct tm*lt(tt*t){ return localtime(t); }
static char*ct(tt*t){ return ctime(t); }
static tt mk(struct tm*p){ return mktime(p); }
static float df(tt a,tt b){ return difftime(a,b); }
#endif
#endif
static char b[200];
static int sh(char*s){ unsigned x=7; while(*s) x=(x*31+(*s++&255))&0xffff; return (int)x; }
static void str_(char*w,int a,int c,char*s){ if(want==grp) fprintf(o,"%s %d %d -> '%s'\n",w,a,c,s); add(sh(s)); }
static void tmr(char*w,unsigned t,struct tm*p){ char z[80]; if(!p){ str_(w,(int)(t>>15>>1),(int)(t&0xffff),"NULL"); return; } sprintf(z,"%d-%d-%d %d:%d:%d wday %d yday %d dst %d",p->tm_year,p->tm_mon,p->tm_mday,p->tm_hour,p->tm_min,p->tm_sec,p->tm_wday,p->tm_yday,p->tm_isdst); str_(w,(int)(t>>15>>1),(int)(t&0xffff),z); }
static int lp(int y){ return y%4==0&&(y%100!=0||y%400==0); }
static int ml[13]={0,31,28,31,30,31,30,31,31,30,31,30,31};
static int mdays(int y,int m){ return ml[m+1]+(m==1&&lp(y)); }
static int wd1(int y){ int r, z=y-1; r=(1+z%7+z/4%7-z/100%7+z/400%7)%7; return (r+7)%7; }   /* weekday of January 1st */
static struct tm T;
static void put(int y,int yday){ int m=0, d=yday; while(d>=mdays(y,m)) d-=mdays(y,m++); memset(&T,0,sizeof T); T.tm_year=y-1900; T.tm_mon=m; T.tm_mday=d+1; T.tm_yday=yday; T.tm_wday=(wd1(y)+yday)%7; }
static void f1(char*f){ size_t n; memset(b,0x55,sizeof b); n=strftime(b,sizeof b,f,&T); if(n!=strlen(b)) strcat(b," wrong length"); str_(f,T.tm_year+1900,T.tm_yday,b); }
static char*EACH[]={"%a","%A","%b","%B","%c","%C","%d","%D","%e","%F","%g","%G","%h","%H","%I","%j","%m","%M","%n","%p","%r","%R","%S","%t","%T","%u","%U","%V","%w","%W","%x","%X","%y","%Y","%%","%Ec","%EC","%Ex","%EX","%Ey","%EY","%Od","%Oe","%OH","%OI","%Om","%OM","%OS","%Ou","%OU","%OV","%Ow","%OW","%Oy","","abc","%%%%d","a%db","%H%M","%%Y-%Y%%","x\xe9%d\xff","%p.%I"};
#define NE (int)(sizeof EACH/sizeof EACH[0])
#ifndef YLO
#define YLO 1000
#define YHI 9999
#endif
int main(int argc,char**argv){
 int i,j,k,y,n;
#ifdef __GNUC__
 setenv("TZ","UTC0",1);
#endif
 start(argc,argv);
 /* strftime: every conversion on every day of some years, the days around New Year of all years */
 begin(); for(y=1967;y<=(YHI>3000?2002:1974);y++) for(i=0;i<365+lp(y);i++){ put(y,i); T.tm_hour=i%24; T.tm_min=i%60; T.tm_sec=i*7%61; for(j=0;j<NE;j++) f1(EACH[j]); } end();
 begin(); for(y=YLO;y<=YHI;y++) for(i=-8;i<9;i++){ k=i<0?365+lp(y)+i:i; put(y,k); f1("%g %G %V %U %W %u %w %a"); f1("%C%y %Y %F"); } end();
 begin(); put(2001,40); for(T.tm_hour=0;T.tm_hour<24;T.tm_hour++) for(T.tm_min=0;T.tm_min<60;T.tm_min+=(YHI>3000?1:7)) { T.tm_sec=T.tm_min*7%62; f1("%c %H %I %p %r %R %T %X %M %S"); } end();
 begin(); for(y=1999;y<=2000;y++) for(i=0;i<366;i+=(YHI>3000?5:61)) for(j=0;j<NE;j++){ put(y,i%(365+lp(y))); n=strftime(b,200,EACH[j],&T); for(k=0;k<n+3;k++){ memset(b,0x55,60); { int r=strftime(b,k,EACH[j],&T), z=0, q; for(q=k;q<60;q++) if(b[q]!=0x55) z=1; if(r) str_("maxsize",j,k,b); else res("maxsize",j,k,y,z); if(z) res("overrun",j,k,y,z); } } } end();
 begin(); for(i=0;i<7;i++) for(j=0;j<12;j++) for(k=1;k<32;k+=(j%5?9:1)) for(y=1000;y<10000;y+=(j+i?1777:501)){ memset(&T,0,sizeof T); T.tm_wday=i; T.tm_mon=j; T.tm_mday=k; T.tm_year=y-1900; T.tm_hour=k%24; T.tm_min=k+20; T.tm_sec=k*2%62; str_("asctime",y,i*1000+j*32+k,asctime(&T)); } end();
#ifndef I16
 { tt t, u; unsigned d; static unsigned S[9]={0,1,59,60,3599,3600,43199,43200,86399}; static unsigned P[12]={0,1,2,86400,16777215,16777217,33554435,0x7fffffff,0x80000000,0x80000001,0xfffffffe,0xfffffeff};
 begin(); for(d=0;d<49673;d+=DSTEP) for(i=0;i<9;i++){ struct tm*p; t=d*86400u+S[i]; p=gm(&t); tmr("gmtime",t,p); if(p){ struct tm c; c=*p; c.tm_wday=99; c.tm_yday=999; u=mk(&c); res("mktime(gmtime)",d,i,0,u==t); if(memcmp(&c,p,9*sizeof(int))) res("mktime changed fields",d,i,0,1); }
  if(i==3||i==8){ p=lt(&t); tmr("localtime",t,p); str_("ctime",d,i,ct(&t)); } } end();
 begin(); for(t=951782400u-86400u;t<951782400u+86400u;t+=(DSTEP>1?97:1)){ tmr("gmtime",t,gm(&t)); if(t%97==0) str_("ctime",(int)(t>>16),t&0xffff,ct(&t)); } end();
 begin(); for(y=1970;y<2106;y++) for(i=0;i<12;i++) for(j=1;j<=mdays(y,i);j+=(y%4<2&&DSTEP==1?1:9)) for(k=0;k<4;k++){ static int H[4][3]={{0,0,0},{23,59,59},{12,30,1},{0,0,59}}; memset(&T,0,sizeof T); T.tm_year=y-1900; T.tm_mon=i; T.tm_mday=j; T.tm_hour=H[k][0]; T.tm_min=H[k][1]; T.tm_sec=H[k][2]; T.tm_wday=-1; T.tm_yday=-5; u=mk(&T); tmr("mktime",u,&T); add((int)(u&0xffff)); add((int)(u>>16)); } end();
 /* fields that are out of range: this library refuses them (and says so); dates it cannot represent */
 begin(); for(i=0;i<6;i++) for(j=0;j<6;j++){ static int V[6][6]={{-1,60,61,100,-60,32767},{-1,60,100,-60,3000,-32767},{-1,24,25,48,-24,9999},{0,-1,32,100,-31,9999},{-1,12,13,24,-12,9999},{69,0,-1,206,300,9999}}; int*f; memset(&T,0,sizeof T); T.tm_year=100; T.tm_mday=15; T.tm_mon=5; f=i==0?&T.tm_sec:i==1?&T.tm_min:i==2?&T.tm_hour:i==3?&T.tm_mday:i==4?&T.tm_mon:&T.tm_year; *f=V[i][j]; u=mk(&T);
#ifdef __GNUC__
  u=(tt)-1;
#endif
  res("mktime refuses",i,j,0,u==(tt)-1); }
 for(y=1970;y<2106;y++) for(i=0;i<12;i++) for(j=mdays(y,i)+1;j<=31;j++){ memset(&T,0,sizeof T); T.tm_year=y-1900; T.tm_mon=i; T.tm_mday=j; u=mk(&T);
#ifdef __GNUC__
  u=(tt)-1;
#endif
  res("mktime refuses the day",y,i,j,u==(tt)-1); }
 for(i=0;i<38;i++) { struct tm*p; t=4291747200u+i*86400u; if(i==37) t=0xffffffffu; p=gm(&t);
#ifdef __GNUC__
  p=NULL;
#endif
  res("gmtime past 2105",i,0,0,!p||p->tm_year==206&&p->tm_yday==i); } end();
 begin(); for(i=0;i<12;i++) for(j=0;j<12;j++){ float f; unsigned z; f=df(P[i],P[j]); memcpy(&z,&f,4); if(z==0x80000000) z=0; res("difftime",i,j,(int)(z>>16),(int)(z&0xffff)); } end();
 begin(); { time_t a=0, c; c=time(&a); res("time",0,0,0,a==c&&c!=(time_t)-1); { time_t e=time(NULL); res("time goes on",0,0,0,e>=c&&e-c<100); } res("clock",0,0,0,clock()!=(clock_t)-1); } end();
 }
#endif
 stop(); return 0; }
