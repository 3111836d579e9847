/* Fault enumeration over one operation sequence: every request the library makes fails or is cut short in turn. */
struct rec { int r, dn, fl; unsigned h; unsigned char s[8]; };
static struct rec B[17], R[17], S[17]; static unsigned char bf[MAXF], cf[64]; static int bms, bfc, btl, rfc, rtl, bn, bst;
static unsigned char bty[64], bop[64]; static unsigned m1, m2; static unsigned runs, checks; static int nviol;
static unsigned char rep[16]; static int rn;
static int run(unsigned char*o,int len,struct rec*x){
 int k,i,st; runs++;
 setfile(); for(i=0;i<24;i++) if(!f||mode[0]!='o'&&mode[0]!='i') used[i]=0;
 cnt=0; fdid[0]=fdid[1]=0; cur=99; armed=mode[0]!='o'&&mode[0]!='i'; st=start(); armed=0;
 if(st==-98&&f) fclose(f);
 if(st) return st;
 rn=len;
 for(k=0;k<len;k++){
  cur=k; armed=1; x[k].r=o[k]==' '?0:doop(o[k]); armed=0; if(o[k]==' ') dn=0;
  x[k].fl=(feof(f)!=0)|(ferror(f)!=0)<<1; x[k].dn=dn;
  { unsigned h=7; for(i=0;i<dn;i++) h=(h*31+d[i])&0xffff; x[k].h=h; }
  if(o[k]=='r'&&x[k].r==0){ rn=k; break; }
 }
 rtl=tell(f);
 cur=len; armed=1; rfc=finish(); armed=0;
 return 0;
}
static void num(int v){ char t[12]; int i=11; t[11]=0; if(v<0) pb('-'),v=-v; do t[--i]='0'+v%10; while((v/=10)!=0); while(t[i]) pb(t[i++]); }
static void txt(char*s){ while(*s) pb(*s++); }
static void viol(int len,char*what,int k){
 int i; if(nviol++>40) return;
 txt("V "); for(i=0;i<len;i++) pb(ops[i]); txt(" faults"); for(i=0;i<2;i++) if(fat[i]){ pb(' '); num(fat[i]); pb('/'); num(fkind[i]); pb('/'); if(fat[i]<64&&fat[i]<=bn) pb(bty[fat[i]]); else pb('?'); }
 txt(" at op "); num(k); txt(": "); txt(what); pb('\n');
}
static int same(struct rec*a,struct rec*b,int eofs){ return a->r==b->r&&a->dn==b->dn&&a->h==b->h&&(!eofs||(a->fl&1)==(b->fl&1)); }
static int fdsopen(void){ int i; for(i=3;i<8;i++) if(mfl[i]) return 1; return 0; }
static int leak(void){ int i; if(mode[0]=='o'||mode[0]=='i') return 0; for(i=0;i<24;i++) if(used[i]) return 1; return 0; }
static int failed(int op,int r){
 switch(op){
 case 'g': case 'h': case 'j': case 'p': case 'q': case 'n': case 'b': return r==-1;
 case 'G': case 'H': case 'k': case 's': case 'a': return r==0;
 case 'R': return r<2; case 'Q': return r<2; case 'B': return r<1500;
 case 'P': case 'd': return r<0;
 case 'W': return r<3; case 'V': return r<2; case 'C': return r<1300;
 case 't': return r==-1; case 'r': return r==0;
 case 'u': case 'U': return r==-1; case 'e': case 'c': case 'w': return 0;
 }
 return r!=0;
}
static int iswrite(int op){ return strchr("pqnbsaPdWVC",op)!=NULL; }
static int isread(int op){ return strchr("ghjGHkRQB",op)!=NULL; }
/* the data of a writing operation and how much of it was reported as written */
static int data(int op,int r,unsigned char**p){
 static unsigned char t[3]; int fa=failed(op,r);
 switch(op){
 case 'p': case 'b': *p="x"; dn=1; return fa?0:1;
 case 'q': t[0]=200; *p=t; dn=1; return fa?0:1;
 case 'n': *p="\n"; dn=1; return fa?0:1;
 case 's': *p="yz\nw"; dn=4; return fa?0:4;
 case 'a': *p="k\nl\n"; dn=4; return fa?0:4;
 case 'P': case 'd': *p="42\n"; dn=3; return fa?0:3;
 case 'W': *p="QRS"; dn=3; return r;
 case 'V': *p="J\nKL"; dn=4; return r*2;
 }
 dn=0; return 0;
}
/* can mf[at..] be explained: bytes reported as written all present, in order, once; others optional */
static unsigned char *eb[64]; static unsigned char ev[80], em[80]; static int en;
static int match(int e,int at){
 for(;;){
  if(e==en) return at==ms;
  if(at<ms&&mf[at]==ev[e]){ if(em[e]){ e++; at++; continue; } if(match(e+1,at+1)) return 1; e++; continue; }
  if(em[e]) return 0;
  e++;
 }
}
static int expl(int len,int mand){
 int k,i; unsigned char*p; en=0;
 if(mode[0]=='a') for(i=0;i<n;i++) ev[en]=init[i], em[en++]=1;
 for(k=0;k<len;k++) if(iswrite(ops[k])){ int t=data(ops[k],R[k].r,&p); for(i=0;i<dn&&en<80;i++) ev[en]=p[i], em[en++]=mand&&i<t; }
 return match(0,0);
}
static int seqhas(char*set,int len){ int k; for(k=0;k<len;k++) if(strchr(set,ops[k])) return 1; return 0; }
static int pureapp; /* only appending operations */
static void sequel(int len,int k){
 /* the failed operation must have had no effect: the rest equals the sequence without it */
 unsigned char o[16]; int i,st; unsigned r1=fat[0],r2=fat[1]; int a;
 int rep1=0,sms,stl,sfc;
 memcpy(o,ops,16);
 if(ops[k]=='R'&&R[k].r==1){ if(!((m2>>k)&1)) return; o[k]='g'; }
 else { if(isread(ops[k])&&R[k].r>0) return; if(!((m1>>k)&1)) return; o[k]=' '; }
 memcpy(S,R,sizeof R); sms=ms; stl=rtl; sfc=rfc; memcpy(bf,mf,sms);
 fat[0]=fat[1]=0;
 st=run(o,len,R);
 fat[0]=r1; fat[1]=r2; checks++;
 for(i=k+1;i<len;i++) if(!same(S+i,R+i,ops[k]!=' '&&isread(ops[k]))){ viol(len,"an operation after the failed one behaves as if it had taken effect",i); return; }
 if(stl!=rtl) { viol(len,"position after the failed operation",k); return; }
 if(sfc!=rfc||sms!=ms||memcmp(bf,mf,ms)) viol(len,"file content after the failed operation",k);
}
static void base(int len){
 int i; static int warm; if((mode[0]=='o'||mode[0]=='i')&&!warm){ warm=1; fat[0]=fat[1]=0; run(ops,len,B); }
 fat[0]=fat[1]=0; bst=run(ops,len,B); bn=cnt; memcpy(bty,oty,64); memcpy(bop,oop,64); bfc=rfc; btl=rtl; bms=ms;
 if(mode[0]!='o'&&mode[0]!='i'){ if(fdsopen()) viol(len,"descriptor left open",len); if(leak()) viol(len,"memory left allocated",len); }
}
static unsigned char bimg[MAXF];
static int eqbase(void){ return rfc==bfc&&ms==bms&&!memcmp(mf,bimg,ms)&&rtl==btl; }
static void settle(void){
 if(mode[0]=='o'){ int i; for(i=0;i<3&&fflush(f);i++); }
}
static void check(int len){
 int st,k,i,k2,ty,anyfail=0,sticky=-1,ex=0,wf=0,single=!fat[1],tys=0;
 st=run(ops,len,R); checks++;
 if(st==-99||st==-98){
  if(fdid[0]!='o'&&fdid[0]!='m'&&fdid[1]!='o'&&fdid[1]!='m') viol(len,"open fails without a failing request",0);
  if(fdsopen()) viol(len,"descriptor left open after a failed open",0);
  if(leak()) viol(len,"memory left allocated after a failed open",0);
  return;
 }
 if(fdsopen()) viol(len,"descriptor left open",len);
 if(leak()) viol(len,"memory left allocated",len);
 if(rn<len){ if(fdid[0]!='o'&&fdid[0]!='m'&&fdid[1]!='o'&&fdid[1]!='m') viol(len,"freopen fails without a failing request",rn); return; }
 for(i=0;i<len;i++) if(failed(ops[i],R[i].r)) anyfail=1;
 /* harmless faults: a short read, memory for the buffer not available */
 { int harmless=1; for(i=0;i<2;i++) if(fdid[i]&&!(fdid[i]=='m'||(fdid[i]=='r'&&fkind[i]>=2))) harmless=0;
   if(harmless){
    for(i=0;i<len;i++) if(!same(R+i,B+i,1)||R[i].fl!=B[i].fl){ viol(len,"short read or missing buffer changes a result",i); return; }
    if(!eqbase()) viol(len,"short read or missing buffer changes the file or the position",len);
    return;
   }
 }
 for(i=0;i<2;i++) if(fdid[i]){
  k=fat[i]<64?oop[fat[i]]:0; ty=fdid[i];
  if(k==99) continue;
  if(k<len&&(ops[k]=='w'||ops[k]=='r')){ ex=1; continue; }
  if(ty=='r'&&fkind[i]==1||ty=='w'){
   if(ty=='w') wf=1;
   if(k==len){ if(ty=='w'&&rfc==0&&mode[0]!='i') viol(len,"close reports success after a failed write",len); }
   else {
    if(ty=='r'&&!failed(ops[k],R[k].r)) viol(len,"success although reading failed",k);
    if(!(R[k].fl&2)) viol(len,"error indicator not set",k);
    if(ty=='r'&&single&&(R[k].fl&1)&&!(k&&(R[k-1].fl&1))) viol(len,"end of file reported for a read error",k);
    for(k2=k+1;k2<len&&ops[k2]!='c'&&ops[k2]!='w'&&ops[k2]!='r';k2++) if(!(R[k2].fl&2)){ viol(len,"error indicator lost",k2); break; }
   }
  }
  if(ty=='c'&&k==len&&rfc==0) viol(len,"close failure not reported",len);
  if(ty=='s'&&k<len&&!failed(ops[k],R[k].r)&&single){
   for(k2=0;k2<len;k2++) if(!same(R+k2,B+k2,1)){ viol(len,"seek failure not reported",k2); break; }
  }
 }
 if(ex) return;
 if(!anyfail&&rfc==bfc){
  for(i=0;i<len;i++) if(!same(R+i,B+i,1)){ viol(len,"no failure reported, different result",i); return; }
  if(!eqbase()) viol(len,"no failure reported, different file or position",len);
  return;
 }
 if(wf&&pureapp&&!expl(len,rfc==0)){ viol(len,rfc==0?"a byte reported as written is lost or duplicated":"bytes invented, duplicated or out of order",len); return; }
 if(single&&!wf){
  ty=fdid[0]; k=oop[fat[0]];
  if(ty=='c'){ if(ms!=bms||memcmp(mf,bimg,ms)) viol(len,"close failure loses data",len); }
  else if(k<len&&failed(ops[k],R[k].r)&&!strchr("GHkQB",ops[k])) sequel(len,k);
  else if(k<len&&failed(ops[k],R[k].r)&&isread(ops[k])&&R[k].r==0&&ops[k]=='B') sequel(len,k);
 }
}
static int kinds(int ty){ return ty=='r'||ty=='w'?3:1; }
static void faults(int len){
 int i,j,a,b,two,pk,k; 
 m1=gb(); m1|=gb()<<8; m2=gb(); m2|=gb()<<8; two=gb();
 pureapp=1; for(k=0;k<len;k++) if(!iswrite(ops[k])&&!strchr("fFcem",ops[k])) pureapp=0;
 if(n==199||mode[0]=='r') pureapp=0;
 base(len);
 if(bst){ viol(len,"cannot start",bst); return; }
 memcpy(bimg,mf,bms);
 for(i=1;i<=bn&&i<60;i++) for(a=1;a<=kinds(bty[i]);a++){
  fat[0]=i; fkind[0]=a; fat[1]=0; check(len); settle();
  if(two){ /* a second fault at every later request (numbering after the first fault) */
   int c2; fat[0]=i; fkind[0]=a; fat[1]=0; run(ops,len,R); settle(); c2=cnt; pk=cnt<60?cnt:60;
   for(j=i+1;j<=pk;j++) for(b=1;b<=3;b++){ fat[1]=j; fkind[1]=b; check(len); settle(); if(kinds(fdid[1]==0?'x':fdid[1])<b) break; }
   fat[1]=0;
  }
 }
 fat[0]=fat[1]=0;
}
static void totals(void){ txt("T "); num(runs); pb(' '); num(checks); pb('\n'); runs=checks=0; nviol=0; }
