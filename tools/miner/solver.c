// Bucketed Cuckaroo solver, used once, offline, to produce the header fixtures
// in /verif/fixtures (no check runs it). Reads lines "edgebits k0 k1 k2 k3"
// (hex keys) on stdin, prints "SOL n1 .. n42" or "NONE" per line.
// gcc -O3 -march=native -fopenmp solver.c -o solver
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <omp.h>
typedef uint64_t u64; typedef uint32_t u32;
typedef u64 vec __attribute__((vector_size(64)));
#define PROOF 42
#define ROT(x,b) (((x)<<(b))|((x)>>(64-(b))))
#define RND { a+=b; c+=d; b=ROT(b,13); d=ROT(d,16); b^=a; d^=c; a=ROT(a,32); c+=b; a+=d; b=ROT(b,17); d=ROT(d,21); b^=c; d^=a; c=ROT(c,32);}
// 8 blocks of 64 edges at once: out[i][lane]
static void blocks8(const u64 k[4], u64 start, vec out[64]) {
  vec a={0},b={0},c={0},d={0},n={0}; a+=k[0];b+=k[1];c+=k[2];d+=k[3];
  for(int l=0;l<8;l++) n[l]=start+64*l;
  for (int i=0;i<64;i++){ d^=n; RND RND a^=n; c^=0xff; RND RND RND RND out[i]=a^b^c^d; n+=1; }
  for (int i=0;i<63;i++) out[i]^=out[63];
}
typedef struct { u32 u,v; } E;
#define NB 256
static int cmp(const void*a,const void*b){ u32 x=*(u32*)a,y=*(u32*)b; return x<y?-1:x>y; }
static u64 *hn; static u64 hm;
static u64 fnd(u64 x){ u64 h=(x*0x9E3779B97F4A7C15ull)>>20&hm; while(hn[h]!=~0ull&&hn[h]!=x) h=(h+1)&hm; return h; }
static E *bufs[2]; static u64 bufcap;
static u32 (*cnt[2])[NB];
int main(){
  unsigned eb; u64 k[4]; char line[512];
  int T=omp_get_max_threads();
  cnt[0]=calloc(T,sizeof(*cnt[0])); cnt[1]=calloc(T,sizeof(*cnt[1]));
  while(fgets(line,sizeof line,stdin)){
    if(sscanf(line,"%u %lx %lx %lx %lx",&eb,&k[0],&k[1],&k[2],&k[3])!=5) break;
    u64 N=1ull<<eb, mask=N-1; if(eb<12) {puts("NONE");fflush(stdout);continue;}
    int sh=eb-8; u64 range=1ull<<sh;
    u64 cap=N/NB/T; cap+=cap/8+4096;
    u64 need=cap*NB*T;
    if(need>bufcap){ for(int i=0;i<2;i++){ if(bufs[i]) munmap(bufs[i],bufcap*sizeof(E)); bufs[i]=mmap(0,need*sizeof(E),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); madvise(bufs[i],need*sizeof(E),MADV_HUGEPAGE);} bufcap=need; }
    int ovf=0;
    #pragma omp parallel
    { int t=omp_get_thread_num(); E*base=bufs[0]+cap*NB*t; u32 c[NB]={0}; vec o[64];
      u64 lo=N/512*t/T*512, hi=N/512*(t+1)/T*512;
      for(u64 s=lo;s<hi;s+=512){ blocks8(k,s,o); for(int i=0;i<64;i++) for(int l=0;l<8;l++){ u64 x=o[i][l]; u32 u=x&mask,v=(x>>32)&mask; u32 b=u>>sh; if(c[b]>=cap){ovf=1;continue;} base[cap*b+c[b]++]=(E){u,v}; } }
      memcpy(cnt[0][t],c,sizeof c); }
    u64 tot=0,prev=0; int cur=0; 
    for(int r=0;r<160;r++){
      u64 *tots=calloc(T,8);
      #pragma omp parallel
      { int t=omp_get_thread_num(); E*base=bufs[cur^1]+cap*NB*t; u32 c[NB]={0}; u64 W=range/64+1; u64*b1=malloc(W*8),*b2=malloc(W*8);
        for(int b=t;b<NB;b+=T){ memset(b1,0,W*8); memset(b2,0,W*8);
          for(int s=0;s<T;s++){ E*in=bufs[cur]+cap*NB*s+cap*b; u32 m=cnt[cur][s][b]; for(u32 i=0;i<m;i++){ u32 x=in[i].u&(range-1); u64 q=1ull<<(x&63); b2[x>>6]|=b1[x>>6]&q; b1[x>>6]|=q; } }
          for(int s=0;s<T;s++){ E*in=bufs[cur]+cap*NB*s+cap*b; u32 m=cnt[cur][s][b]; for(u32 i=0;i<m;i++){ u32 x=in[i].u&(range-1); if(b2[x>>6]>>(x&63)&1){ u32 d=in[i].v>>sh; if(c[d]>=cap){ovf=1;continue;} base[cap*d+c[d]++]=(E){in[i].v,in[i].u}; } } }
        }
        memcpy(cnt[cur^1][t],c,sizeof c); u64 s=0; for(int b=0;b<NB;b++) s+=c[b]; tots[t]=s; free(b1);free(b2); }
      cur^=1; tot=0; for(int t=0;t<T;t++) tot+=tots[t]; free(tots);
      if((r&1)&&(tot==prev||tot<150000)) break; if(r&1) prev=tot;
    }
    if(cur) fprintf(stderr,"odd\n");
    if(ovf) fprintf(stderr,"overflow\n");
    hm=1; while(hm<tot*4+16) hm<<=1; hm--; 
    hn=malloc((hm+1)*8); memset(hn,0xff,(hm+1)*8);
    u64 *par=malloc((hm+1)*8); E *pe=malloc((hm+1)*sizeof(E)); memset(par,0xff,(hm+1)*8);
    int found=0; E cyc[PROOF];
    static u64 pu[4000000],pv[4000000]; 
    for(int t=0;t<T&&!found;t++) for(int bb=0;bb<NB&&!found;bb++) for(u64 i=0;i<cnt[cur][t][bb]&&!found;i++){
      E e=bufs[cur][cap*NB*t+cap*bb+i]; u64 a=fnd((u64)e.u), b; if(hn[a]==~0ull) hn[a]=e.u; b=fnd((u64)e.v|1ull<<40); if(hn[b]==~0ull) hn[b]=(u64)e.v|1ull<<40;
      int nu=0,nv=0; u64 x=a; pu[nu++]=x; while(par[x]!=~0ull&&nu<3999999){x=par[x];pu[nu++]=x;} x=b; pv[nv++]=x; while(par[x]!=~0ull&&nv<3999999){x=par[x];pv[nv++]=x;}
      if(pu[nu-1]==pv[nv-1]){ int iu=nu-1,iv=nv-1; while(iu>0&&iv>0&&pu[iu-1]==pv[iv-1]){iu--;iv--;}
        int len=iu+iv+1; if(len==PROOF){ int n=0; cyc[n++]=e; for(int j=0;j<iu;j++) cyc[n++]=pe[pu[j]]; for(int j=0;j<iv;j++) cyc[n++]=pe[pv[j]]; found=1; }
      } else {
        if(nu<nv){ for(int j=nu-1;j>0;j--){ par[pu[j]]=pu[j-1]; pe[pu[j]]=pe[pu[j-1]]; } par[a]=b; pe[a]=e; }
        else { for(int j=nv-1;j>0;j--){ par[pv[j]]=pv[j-1]; pe[pv[j]]=pe[pv[j-1]]; } par[b]=a; pe[b]=e; }
      }
    }
    free(hn);free(par);free(pe);
    if(found){ // recover the nonces
      u32 s[PROOF]; int n=0; char*us=calloc(1<<16,1); for(int j=0;j<PROOF;j++) us[cyc[j].u&0xffff]=1;
      #pragma omp parallel
      { vec o[64];
        #pragma omp for schedule(static)
        for(u64 st=0;st<N;st+=512){ blocks8(k,st,o); for(int i=0;i<64;i++) for(int l=0;l<8;l++){ u64 y=o[i][l]; u32 u=y&mask,v=(y>>32)&mask; if(us[u&0xffff]) for(int j=0;j<PROOF;j++) if(cyc[j].u==u&&cyc[j].v==v){
          #pragma omp critical
          { if(n<PROOF) s[n]=(u32)(st+64*l+i); n++; } } } } }
      free(us);
      if(n!=PROOF){ puts("NONE"); }
      else { qsort(s,PROOF,4,cmp); printf("SOL"); for(int j=0;j<PROOF;j++) printf(" %u",s[j]); puts(""); }
    } else puts("NONE");
    fflush(stdout);
  }
}
