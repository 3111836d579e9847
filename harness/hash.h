/* One hash per group of cases; with a group number as argument, every result of that group. */
static unsigned h1, h2; static int grp=-1, want=-1; static FILE*o;
#ifdef __GNUC__
static unsigned long tot;
#define COUNT tot++
#else
#define COUNT
#endif
static void begin(void){ grp++; h1=1; h2=7; }
static void end(void){ if(want<0) fprintf(o,"%d %u %u\n",grp,h1&0xffff,h2&0xffff); }
static void add(int v){ COUNT; v&=0xffff; h1=(h1*31+v+1)&0xffff; h2=((h2^v)*37+(h2>>9))&0xffff; }
static void res(char*f,int a,int b,int c,int r){ if(want==grp) fprintf(o,"%s %d %d %d -> %d\n",f,a,b,c,r); add(r); }
static void start(int argc,char**argv){ o=fopen("OUT.TXT","w"); if(!o) exit(9); if(argc>1) want=atoi(argv[1]); }
static void stop(void){
#ifdef __GNUC__
 if(want==-2) fprintf(o,"cases %lu\n",tot);
#endif
 fclose(o);
}
