/* the tasks of the bundled programs, compared with independent computations. B is the program. */
#define CAT_(a,b) a##b
#define main bench_main
#ifdef __GNUC__
__attribute__((unused)) static int bench_main(int, char**);
#endif
#include BENCHSRC
#undef main
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
static uint64_t s_; static long cases;
static uint64_t mixx(uint64_t a, uint64_t b) { a^=b+0x9E3779B97F4A7C15ULL+(a<<6)+(a>>2); a^=a>>30; a*=0xBF58476D1CE4E5B9ULL; a^=a>>27; a*=0x94D049BB133111EBULL; return a^(a>>31); }
static uint64_t rn(void) { s_=mixx(s_,7); return s_; }
static int rg(int a, int b) { return a+(int)(rn()%(uint64_t)(b-a+1)); }
static void bad(const char *f, ...) { va_list ap; printf("\nSIMFAIL kind=wrong-answer iter_seed=0 :: "); va_start(ap,f); vprintf(f,ap); printf("\n"); fflush(stdout); _exit(1); }
#ifdef B_cilksort
static int cmp(const void *a, const void *b) { ELM x=*(ELM*)a, y=*(ELM*)b; return x<y?-1:x>y; }
static void one(int w, int k) {
    static const long sz[]={0,1,2,3,19,20,21,2047,2048,2049,8191,8192,8193,10000,30000,65536,100001}; long n=k<17?sz[k]:rg(0,120000);
    ELM *a=malloc((n+1)*sizeof(ELM)), *t=malloc((n+1)*sizeof(ELM)), *b=malloc((n+1)*sizeof(ELM)); int kind=rg(0,4);
    if (kind==0) fill_array(a,n); else for (long i=0;i<n;i++) a[i]=kind==1?(ELM)rn():kind==2?(ELM)(rn()%10):kind==3?i:(ELM)(n-i);
    memcpy(b,a,n*sizeof(ELM)); qsort(b,n,sizeof(ELM),cmp);
    RUN(cilksort,a,t,n);
    for (long i=0;i<n;i++) if (a[i]!=b[i]) bad("cilksort of %ld numbers (kind %d) with %d workers: element %ld is %ld instead of %ld",n,kind,w,i,a[i],b[i]);
    free(a); free(b); free(t);
}
#endif
#ifdef B_matmul
static void one(int w, int k) {
    int n=k<70?k+1:rg(1,220); REAL *A=malloc(n*n*4),*B=malloc(n*n*4),*C=malloc(n*n*4);
    for (int i=0;i<n*n;i++) { A[i]=(REAL)rg(-8,8); B[i]=(REAL)rg(-8,8); C[i]=(REAL)rg(-999,999); }   /* sums stay exact */
    RUN(rec_matmul,A,B,C,n,n,n,n,0);
    for (int i=0;i<n;i++) for (int j=0;j<n;j++) { REAL c=0; for (int l=0;l<n;l++) c+=A[i*n+l]*B[l*n+j]; if (c!=C[i*n+j]) bad("matmul %d with %d workers: element (%d,%d) is %g instead of %g",n,w,i,j,C[i*n+j],c); }
    free(A); free(B); free(C);
}
#endif
#ifdef B_strassen
static void one(int w, int k) {
    int n=16<<(k%5); if (k>20) n=16<<(k%4); REAL *A=alloc_matrix(n),*B=alloc_matrix(n),*C=alloc_matrix(n);
    for (int i=0;i<n*n;i++) { A[i]=(REAL)rg(-8,8); B[i]=(REAL)rg(-8,8); C[i]=(REAL)rg(-999,999); }
    RUN(OptimizedStrassenMultiply,C,A,B,n,n,n,n);
    for (int i=0;i<n;i++) for (int j=0;j<n;j++) { double c=0; for (int l=0;l<n;l++) c+=(double)A[i*n+l]*B[l*n+j]; if (c-C[i*n+j]>1e-6||C[i*n+j]-c>1e-6) bad("strassen %d with %d workers: element (%d,%d) is %g instead of %g",n,w,i,j,(double)C[i*n+j],c); }
    free(A); free(B); free(C);
}
#endif
#ifdef B_knapsack
static void one(int w, int k) {
    (void)k; int n=rg(0,17), c=rg(0,300); struct item it[20]; static int best[400]; for (int i=0;i<n;i++) { it[i].value=rg(0,100); it[i].weight=rg(1,80); }
    qsort(it,n,sizeof *it,(int(*)(const void*,const void*))compare);
    memset(best,0,sizeof best); for (int i=0;i<n;i++) for (int j=c;j>=it[i].weight;j--) if (best[j-it[i].weight]+it[i].value>best[j]) best[j]=best[j-it[i].weight]+it[i].value;
    int r=RUN(knapsack,it,c,n,0); if (r!=best[c]) bad("knapsack of %d items, capacity %d with %d workers: %d instead of %d",n,c,w,r,best[c]);
}
#endif
#ifdef B_queens
static long ref(int n, unsigned c, unsigned l, unsigned r) { unsigned f=(1u<<n)-1; if (c==f) return 1; long k=0; for (unsigned p=f&~(c|l|r);p;p&=p-1) { unsigned b=p&-p; k+=ref(n,c|b,(l|b)<<1,(r|b)>>1); } return k; }
static void one(int w, int k) { int n=k%9+1; if (k==3) n=10; char a[16]; long r=RUN(nqueens,n,0,a), x=ref(n,0,0,0); if (r!=x) bad("queens(%d) with %d workers: %ld instead of %ld",n,w,r,x); }
#endif
#ifdef B_dfs
static long loops;
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void *f, void *c) { (void)c; if (f==(void*)loop) __atomic_fetch_add(&loops,1,5); }
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void *f, void *c) { (void)c; (void)f; }
static void one(int nw, int k) { (void)k; int d=rg(0,6), x=rg(1,5); while (d>4 && x>3) x--; w=x; n=rg(0,3); long want=1; for (int i=0;i<d;i++) want*=x; loops=0; int r=RUN(tree,d); int l; if (d==0) { l=loop(); loops--; if (r!=l) bad("dfs returns %d instead of %d",r,l); } if (loops!=want) bad("dfs of depth %d and width %d with %d workers: %ld leaves instead of %ld",d,x,nw,loops,want); }
#endif
#ifdef B_pi
static void one(int nw, int k) { (void)k; (void)nw; }
#endif
int main(int argc, char **argv)
{
    s_=strtoull(argv[1],0,0); int reps=atoi(argv[2]); (void)argc;
    static const int nws[]={1,2,3,4,8};
    for (int i=0;i<5;i++) { lace_start(nws[i],100000); for (int k=i;k<reps;k+=i==0?3:1) { one(nws[i],k); cases++; } lace_stop(); }
    printf("CASES %ld\n",cases); return 0;
}
