/* Executes encoded stdio operation sequences and reports what the last operation did and what the file holds.
   Input (fd 0, or IN.DAT): header: mode[4] buf kind, size, init length n, n bytes, then sequences: len, ops.  0 = end.
   Several configurations follow each other. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#ifdef __SMALLER_C_16__
#define SMALL
#endif
#ifdef MEM
/* the file system is an array; every request is numbered, and a planned one fails or is cut short */
static int sysread(int fd,void*b,int n){ asm("mov eax,3\nmov ebx,[ebp+8]\nmov ecx,[ebp+12]\nmov edx,[ebp+16]\nint 0x80"); }
static int syswrite(int fd,void*b,int n){ asm("mov eax,4\nmov ebx,[ebp+8]\nmov ecx,[ebp+12]\nmov edx,[ebp+16]\nint 0x80"); }
#define MAXF 6000
static unsigned char mf[MAXF]; static int ms, mpos[8], mfl[8]; /* open flags + 1 */
static int cnt, fat[2], fkind[2], fdid[2], armed, cur;
static unsigned char oty[64], oop[64];
static int fault(int op){ int i; if(!armed) return 0; cnt++; if(cnt<64) oty[cnt]=op, oop[cnt]=cur; for(i=0;i<2;i++) if(fat[i]==cnt){ fdid[i]=op; return fkind[i]; } return 0; }
int __open(char*n,int fl,...){ int i; if(fault('o')) return -1; if(fl&O_TRUNC) ms=0; for(i=3;i<8;i++) if(!mfl[i]){ mfl[i]=fl+1; mpos[i]=0; return i; } return -1; }
int __close(int fd){ int f=fault('c'); if(fd<0||fd>7||!mfl[fd]) return -1; mfl[fd]=0; return f?-1:0; }
ssize_t __read(int fd,void*b,size_t n){ int f=fault('r'); int k; if(f==1) return -1; if(fd<0||fd>7||!mfl[fd]||((mfl[fd]-1)&O_ACCMODE)==O_WRONLY) return -1;
 k=ms-mpos[fd]; if(k<0) k=0; if(k>n) k=n; if(f>=2&&k>1) k=f==2?1:k-1; memcpy(b,mf+mpos[fd],k); mpos[fd]+=k; return k; }
ssize_t __write(int fd,void*b,size_t n){ int f=fault('w'); int k=n; if(f==1) return -1; if(fd<0||fd>7||!mfl[fd]||((mfl[fd]-1)&O_ACCMODE)==O_RDONLY) return -1;
 if((mfl[fd]-1)&O_APPEND) mpos[fd]=ms; if(f==2&&k>1) k=1; else if(f>=2&&k>1) k--; else if(f>=2) return f==2?-1:0; if(mpos[fd]+k>MAXF) return -1; if(mpos[fd]>ms) memset(mf+ms,0,mpos[fd]-ms);
 memcpy(mf+mpos[fd],b,k); mpos[fd]+=k; if(mpos[fd]>ms) ms=mpos[fd]; return k; }
off_t __lseek(int fd,off_t o,int w){ long p; if(fault('s')) return -1; if(fd<0||fd>7||!mfl[fd]) return -1; p=(w==SEEK_SET?0:w==SEEK_CUR?mpos[fd]:ms)+o; if(p<0) return -1; mpos[fd]=p; return p; }
static void putf(char*n,void*b,int k){ int i; memcpy(mf,b,k); ms=k; for(i=3;i<8;i++) mfl[i]=0; }
static int getf(char*n,void*b){ memcpy(b,mf,ms); return ms; }
#ifdef FAULT
static unsigned char pool[24][2400], used[24];
void*malloc(size_t z){ int i; if(fault('m')) return NULL; if(z>2400) return NULL; for(i=0;i<24;i++) if(!used[i]){ used[i]=1; memset(pool[i],0xa5,2400); return pool[i]; } return NULL; }
void free(void*p){ int i; if(!p) return; for(i=0;i<24;i++) if(p==pool[i]&&used[i]){ used[i]=0; memset(pool[i],0x5a,2400); return; } syswrite(1,"!bad free\n",10); _Exit(6); }
#endif
#else
#define sysread read
#define syswrite write
static void putf(char*n,void*b,int k){ int fd=creat(n,0777); write(fd,b,k); close(fd); }
static int getf(char*n,void*b){ int fd=open(n,O_RDONLY),i=read(fd,b,4000); close(fd); return i; }
#endif
static unsigned char ib[1024], ob[1200]; static int ip, in_, ifd, on, ofd;
static int gb(void){ if(ip==in_){ in_=sysread(ifd,ib,1024); ip=0; if(in_<=0) return -1; } return ib[ip++]; }
static void fl(void){ if(on && syswrite(ofd,ob,on)!=on) exit(9); on=0; }
static void pb(int c){ ob[on++]=c; if(on>=1100) fl(); }
static void pi(int v){ pb(v&255); pb((v>>8)&255); }
static void pn(unsigned char*p,int n){ int i; if(n<0||n>60) n=60; pb(n); for(i=0;i<n;i++) pb(p[i]); }
static int tell(FILE*f){
#ifdef SMALL
 fpos_t p; memset(&p,0x55,sizeof p); if(__ftell(f,&p)) return -1; return p.halves[1]? -2 : (int)p.halves[0];
#else
 return ftell(f);
#endif
}
static int sk(FILE*f,int o,int w){
#ifdef SMALL
 fpos_t p; p.halves[0]=o; p.halves[1]=o<0?0xffff:0; return __fseek(f,&p,w);
#else
 return fseek(f,o,w);
#endif
}
static char vb[64]; static char nm[16]="F.DAT"; static unsigned char init[200], big[2100], d[6000];
static FILE*f; static fpos_t pos; static int lastc, dn, bk, bs, n; static char mode[5]; static unsigned char ops[16];
static int doop(int op){
  int r=0; dn=0;
  switch(op){
  case 'g': r=fgetc(f); if(r>=0) lastc=r; break;
  case 'h': r=getc(f); if(r>=0) lastc=r; break;
  case 'G': memset(d,'?',8); r=fgets(d,3,f)?1:0; dn=r?(int)strlen(d)+1:0; if(dn>1) lastc=d[dn-2]; break;
  case 'H': memset(d,'?',40); r=fgets(d,30,f)?1:0; dn=r?(int)strlen(d)+1:0; if(dn>1) lastc=d[dn-2]; break;
  case 'R': memset(d,'?',8); r=fread(d,1,2,f); dn=r; if(r) lastc=d[r-1]; break;
  case 'Q': memset(d,'?',8); r=fread(d,2,2,f); dn=r*2; lastc=-1; break;
  case 'B': memset(d,'?',2200); r=fread(d,1,1500,f); dn=0; { unsigned h=7; int j; for(j=0;j<r;j++) h=(h*31+d[j])&0x7fff; d[0]=h&255; d[1]=h>>8; dn=2; if(r) lastc=big[0]; } lastc=-1; break;
  case 'u': r=ungetc(lastc,f); break;
  case 'U': r=ungetc('Z',f); break;
  case 'e': r=ungetc(EOF,f); break;
  case 'p': r=fputc('x',f); break;
  case 'q': r=putc(200,f); break;
  case 'n': r=fputc('\n',f); break;
  case 's': r=fputs("yz\nw",f)>=0; break;
  case 'W': r=fwrite("QRS",1,3,f); break;
  case 'V': r=fwrite("J\nKL",2,2,f); break;
  case 'P': r=fprintf(f,"%d\n",42); break;
  case 'C': r=fwrite(big,1,1300,f); break;
  case '0': r=sk(f,0,SEEK_SET); break;
  case '2': r=sk(f,2,SEEK_SET); break;
  case '9': r=sk(f,9,SEEK_SET); break;
  case '!': r=sk(f,-1,SEEK_SET)!=0; break;
  case '%': r=sk(f,-100,SEEK_CUR)!=0; break;
  case '_': r=sk(f,-1,SEEK_CUR); break;
  case '=': r=sk(f,0,SEEK_CUR); break;
  case '+': r=sk(f,1,SEEK_CUR); break;
  case '3': r=sk(f,3,SEEK_CUR); break;
  case '5': r=sk(f,500,SEEK_CUR); break;
  case '6': r=sk(f,1200,SEEK_CUR); break;
  case '7': r=sk(f,-600,SEEK_CUR); break;
  case '8': r=sk(f,1024,SEEK_SET); break;
  case '$': r=sk(f,0,SEEK_END); break;
  case '-': r=sk(f,-2,SEEK_END); break;
  case 'm': r=fgetpos(f,&pos); break;
  case 'M': r=fsetpos(f,&pos); break;
  case 'f': r=fflush(f); break;
  case 'F': r=fflush(NULL); break;
  case 'w': rewind(f); break;
  case 'c': clearerr(f); break;
  case 'r': { FILE*g=freopen(nm,"r+b",f); r=g==f; lastc=-1; } break;
  case 't': r=tell(f); break;
  case 'a': r=puts("k\nl")>=0; break;
  case 'b': r=putchar('x'); break;
  case 'd': r=printf("%d\n",42); break;
  case 'j': r=getchar(); if(r>=0) lastc=r; break;
  case 'k': memset(d,'?',60); r=gets(d)?1:0; dn=r?(int)strlen(d)+1:0; lastc=-1; break;
  case 'v': r=setvbuf(f,NULL,_IOFBF,16)!=0; break;
    default: exit(7);
  }
  return r;
}
static int bufmode(void){ return bk==1?_IONBF:bk==3?_IOLBF:bk==7?_IOLBF:_IOFBF; }
static int start(void){
 int rf=0;
 lastc=-1;
#ifdef MEM
 if(mode[0]=='o'||mode[0]=='i'){
  int fd=mode[0]=='i'?0:1; static int set; f=fd?stdout:stdin;
  if(mode[0]=='o') ms=0;
  mfl[fd]=fd+1; mpos[fd]=0;
  if(mode[0]=='i'){ fseek(f,0,SEEK_END); mpos[fd]=0; }
  clearerr(f);
  if(bk&&!set) rf=setvbuf(f,bk==4?NULL:bk>4?vb:NULL,bufmode(),bs);
  set=1; return rf?-98:0;
 }
#endif
 f=fopen(nm,mode); if(!f) return -99;
 memset(vb,'#',64);
 if(bk) rf=setvbuf(f,bk==4?NULL:bk>4?vb:NULL,bufmode(),bs);
 return rf?-98:0;
}
static int finish(void){
#ifdef MEM
 if(mode[0]=='o') return fflush(f);
 if(mode[0]=='i') return 0;
#endif
 return fclose(f);
}
static void setfile(void){
 if(n==199) putf(nm,big,2100); else if(mode[0]!='w'||ops[0]==0) putf(nm,init,n);
#ifdef MEM
 else { int j; for(j=3;j<8;j++) mfl[j]=0; }
#endif
}
static void img(void){ int i=getf(nm,d); if(n==199){ unsigned h=7; int j; for(j=0;j<i;j++) h=(h*31+d[j])&0x7fff; pi(i); pi(h);} else pn(d,i); }
#ifdef FAULT
#include "stdiof.h"
#endif
int main(int argc,char**argv){
 int i,len;
#ifdef _DOS
 ifd=open("IN.DAT",O_RDONLY); ofd=creat("OUT.DAT",0777); if(ifd<0||ofd<0) return 8;
#else
 ifd=0; ofd=1;
#endif
 for(i=0;i<2100;i++) big[i]='A'+i%23;
 for(;;){
  i=gb(); if(i<0) break;
  mode[0]=i; for(i=1;i<4;i++) mode[i]=gb(); mode[4]=0;
  bk=gb(); bs=gb(); n=gb(); for(i=0;i<n;i++) init[i]=gb();
  while((len=gb())>0){
   int k,vis=len&0x80,r=0;
   len&=0x7f;
   for(i=0;i<len;i++) ops[i]=gb();
#ifdef FAULT
   faults(len);
   continue;
#endif
   setfile();
   r=start();
   if(r==-99){ pi(-99); continue; }
   if(r) pi(r);
   for(k=0;k<len;k++) r=doop(ops[k]);
   pi(r); pi(tell(f)); pb((feof(f)!=0)|(ferror(f)!=0)<<1); pn(d,dn);
   if(vis) img();
   pi(finish());
   img();
  }
#ifdef FAULT
  totals();
#endif
  fl();
 }
 fl();
 return 0;
}
