/* String and character functions: prints one hash per group of cases; with an argument, every result of that group. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <ctype.h>
static unsigned h1, h2; static int grp=-1, want=-1; static unsigned long_; static FILE*o;
static unsigned cnt;
#ifdef __GNUC__
static unsigned long tot;
#define COUNT tot++
#else
#define COUNT
#endif
static void begin(void){ grp++; h1=1; h2=7; cnt=0; }
static void end(void){ if(want<0) fprintf(o,"%d %u %u\n",grp,h1&0xffff,h2&0xffff); }
static void add(int v){ COUNT; v&=0xffff; h1=(h1*31+v+1)&0xffff; h2=((h2^v)*37+(h2>>9))&0xffff; }
static void res(char*f,int a,int b,int c,int r){ if(want==grp) fprintf(o,"%s %d %d %d -> %d\n",f,a,b,c,r); add(r); }
static int sgn(int x){ return (x>0)-(x<0); }
static int n1(int x){ return x!=0; }
#define L LEN
#if LEN>5
#define NSMAX 1100
#elif LEN>3
#define NSMAX 370
#else
#define NSMAX 42
#endif
static char st[NSMAX][8]; static int ns;
static char alpha[4]="ab\xe1";
static void gen(void){ int len,i,k,n; for(len=0,n=1;len<=L;len++,n*=3) for(i=0;i<n;i++){ int v=i; for(k=0;k<len;k++){ st[ns][k]=alpha[v%3]; v/=3; } st[ns][len]=0; ns++; } }
static char b1[400], b2[400];
static void buf(char*f,int a,int b,int c,char*p,int n){ int i; unsigned x=1; for(i=0;i<n;i++) x=(x*33+(p[i]&255))&0xffff; if(want==grp){ fprintf(o,"%s %d %d %d ->",f,a,b,c); for(i=0;i<n&&i<100;i++) fprintf(o," %d",p[i]&255); fprintf(o,"\n"); } add(x); }
static int off(char*p,char*base){ return p?(int)(p-base):-1; }
int main(int argc,char**argv){
 int i,j,k,n,c,a,b; char*p; static int cs[7]={0,'a','b',0xe1,'z',0x161,-1};
 o=fopen("OUT.TXT","w"); if(!o) return 9;
 if(argc>1) want=atoi(argv[1]);
 gen();
 begin(); for(c=-1;c<256;c++){ res("isalnum",c,0,0,n1(isalnum(c))); res("isalpha",c,0,0,n1(isalpha(c))); res("isblank",c,0,0,n1(isblank(c))); res("iscntrl",c,0,0,n1(iscntrl(c))); res("isdigit",c,0,0,n1(isdigit(c))); res("isgraph",c,0,0,n1(isgraph(c))); res("islower",c,0,0,n1(islower(c))); res("isprint",c,0,0,n1(isprint(c))); res("ispunct",c,0,0,n1(ispunct(c))); res("isspace",c,0,0,n1(isspace(c))); res("isupper",c,0,0,n1(isupper(c))); res("isxdigit",c,0,0,n1(isxdigit(c))); res("tolower",c,0,0,tolower(c)); res("toupper",c,0,0,toupper(c)); } end();
 begin(); for(i=0;i<ns;i++) for(a=0;a<4;a++){ memset(b1,1,40); strcpy(b1+a,st[i]); p=b1+a; res("strlen",i,a,0,(int)strlen(p));
  for(j=0;j<7;j++){ res("strchr",i,a,cs[j],off(strchr(p,cs[j]),p)); res("strrchr",i,a,cs[j],off(strrchr(p,cs[j]),p)); for(n=0;n<=L+1;n++) res("memchr",i,cs[j],n,off(memchr(p,cs[j],n),p)); } } end();
 begin(); for(i=0;i<ns;i++) for(j=0;j<ns;j++){ strcpy(b1,st[i]); strcpy(b2+1,st[j]); p=b2+1;
  res("strcmp",i,j,0,sgn(strcmp(b1,p))); res("strcoll",i,j,0,sgn(strcoll(b1,p)));
  for(n=0;n<=L+2;n++){ res("strncmp",i,j,n,sgn(strncmp(b1,p,n))); if(n<=(int)strlen(b1)+1&&n<=(int)strlen(p)+1) res("memcmp",i,j,n,sgn(memcmp(b1,p,n))); }
  res("strstr",i,j,0,off(strstr(b1,p),b1)); res("strspn",i,j,0,(int)strspn(b1,p)); res("strcspn",i,j,0,(int)strcspn(b1,p)); res("strpbrk",i,j,0,off(strpbrk(b1,p),b1)); } end();
 begin(); for(i=0;i<ns;i++) for(a=0;a<4;a++) for(b=0;b<4;b++){ strcpy(b2+b,st[i]); memset(b1,'#',40); res("strcpy",i,a,b,off(strcpy(b1+a,b2+b),b1)); buf("strcpy",i,a,b,b1,16);
  for(n=0;n<=L+3;n++){ memset(b1,'#',40); res("strncpy",i,a,n,off(strncpy(b1+a,b2+b,n),b1)); buf("strncpy",i,a*4+b,n,b1,20); memset(b1,'#',40); k=(int)strxfrm(b1+a,b2+b,n); res("strxfrm",i,a,n,k); if(k<n) buf("strxfrm",i,a,n,b1,20); } } end();
 begin(); for(i=0;i<ns;i++) for(j=0;j<ns;j+=1+(L>3)){ strcpy(b2,st[j]); memset(b1,'#',40); strcpy(b1+1,st[i]); res("strcat",i,j,0,off(strcat(b1+1,b2),b1)); buf("strcat",i,j,0,b1,20);
  for(n=0;n<=L+1;n++){ memset(b1,'#',40); strcpy(b1+1,st[i]); res("strncat",i,j,n,off(strncat(b1+1,b2,n),b1)); buf("strncat",i,j,n,b1,20); } } end();
 begin(); for(a=0;a<12;a++) for(b=0;b<12;b++) for(n=0;n<14;n++){ for(i=0;i<40;i++) b1[i]=i+60; res("memmove",a,b,n,off(memmove(b1+4+a,b1+4+b,n),b1)); buf("memmove",a,b,n,b1,40); } end();
 begin(); for(a=0;a<5;a++) for(b=0;b<5;b++) for(n=0;n<72;n++){ for(i=0;i<100;i++) b1[i]=i+60,b2[i]=i*3+1; res("memcpy",a,b,n,off(memcpy(b1+4+a,b2+b,n),b1)); buf("memcpy",a,b,n,b1,100); res("memmove",a,b,n,off(memmove(b2+20+a,b2+18+b,n),b2)); buf("memmove",a,b,n,b2,100); } end();
 begin(); for(a=0;a<5;a++) for(j=0;j<7;j++) for(n=0;n<72;n++){ for(i=0;i<100;i++) b1[i]=i+60; res("memset",a,cs[j],n,off(memset(b1+4+a,cs[j],n),b1)); buf("memset",a,cs[j],n,b1,100); } end();
 begin(); for(n=0;n<300;n++) for(a=0;a<4;a++){ memset(b1,'x',320); b1[a+n]=0; res("strlen",n,a,0,(int)strlen(b1+a)); b1[a+n]='y'; b1[a+n+1]=0; res("strchr",n,a,0,off(strchr(b1+a,'y'),b1)); res("strrchr",n,a,0,off(strrchr(b1+a,'y'),b1)); res("memchr",n,a,0,off(memchr(b1+a,'y',n+1),b1)); res("memchr",n,a,1,off(memchr(b1+a,'y',n),b1)); memset(b2,'x',320); res("memcmp",n,a,0,sgn(memcmp(b1+a,b2+a,n+1))); res("memcmp",n,a,1,sgn(memcmp(b1+a,b2+a,n))); } end();
 begin(); { int ln=1; 
  for(n=0;n<6;n++){ int tot=1; for(i=0;i<n;i++) tot*=4; for(i=0;i<tot;i++){ static char*dl[4]={",",",;","",";"}; int v=i,d; for(d=0;d<9;d++){ char*t; v=i; for(k=0;k<n;k++){ b1[k]=",a;b"[v&3]; v>>=2; } b1[n]=0; b1[n+1]='!';
   t=strtok(b1,dl[d%3]); res("strtok",n,i,d,off(t,b1)); for(k=0;k<5;k++){ if(!t&&0) break; if(!t) break; buf("tok",n,i,d,t,(int)strlen(t)); t=strtok(NULL,k==0?dl[d/3]:dl[(d+k)%4]); res("next",i,d,k,off(t,b1)); } buf("left",n,i,d,b1,n+2); } } } } end();
 /* an interrupted strtok: a second string starts over */
 begin(); for(i=0;i<3;i++){ char*t; strcpy(b1,"x y z"); strcpy(b2,"p q"); t=strtok(b1," "); res("s",i,0,0,off(t,b1)); if(i) t=strtok(NULL," "); t=strtok(b2," "); res("s",i,1,0,off(t,b2)); t=strtok(NULL," "); res("s",i,2,0,off(t,b2)); t=strtok(NULL," "); res("s",i,3,0,off(t,b2)); } end();
#ifdef BIG
 /* blocks beyond 64KB at all alignments near a 64KB boundary */
 begin(); { char*q=malloc(300000),*w; unsigned z; w=q; 
  if(!q) return 8;
  for(a=0;a<6;a++) for(n=0;n<4;n++){ unsigned sz=65530+n*3+a*4000, x=1,y=1; unsigned u;
   p=w+a*7; for(u=0;u<sz;u++) p[u]=u*7+(u>>8); for(u=0;u<200000;u++) p[sz+u]=0x55;
   memcpy(p+100000+n,p,sz); for(u=0;u<120000;u+=1) x=(x*33+(p[100000+u]&255))&0xffff; res("bigcpy",a,n,0,x);
   res("bigcmp",a,n,0,sgn(memcmp(p,p+100000+n,sz))); p[100000+n+sz-1]^=1; res("bigcmp",a,n,1,sgn(memcmp(p,p+100000+n,sz)));
   memmove(p+5,p,sz); for(x=1,u=0;u<sz+8;u++) x=(x*33+(p[u]&255))&0xffff; res("bigmove",a,n,0,x);
   memmove(p,p+9,sz); for(x=1,u=0;u<sz+8;u++) x=(x*33+(p[u]&255))&0xffff; res("bigmove",a,n,1,x);
   memset(p+3,'q',sz); for(x=1,u=0;u<sz+8;u++) x=(x*33+(p[u]&255))&0xffff; res("bigset",a,n,0,x);
   p[sz]=0; p[sz-1]='e'; p[0]='e'; p[1]=p[2]='q'; res("bigchr",a,n,0,(int)((char*)memchr(p+1,'e',sz)-p)&0x7fff); res("biglen",a,n,0,(int)(strlen(p))&0x7fff); res("bigrchr",a,n,0,(int)(strrchr(p,'e')-p)&0x7fff); res("bigchr",a,n,0,(int)(strchr(p+1,'e')-p)&0x7fff);
   strcpy(p+100001,p); for(x=1,u=0;u<sz+8;u++) x=(x*33+(p[100000+u]&255))&0xffff; res("bigscpy",a,n,0,x);
   res("bigscmp",a,n,0,sgn(strcmp(p,p+100001))); p[100001+sz-2]='r'; res("bigscmp",a,n,1,sgn(strcmp(p,p+100001)));
  } } end();
#endif
#ifdef __GNUC__
 if(want==-2) fprintf(o,"cases %lu\n",tot);
#endif
 fclose(o);
 return 0;
}
