/* C library leaf functions, compiled WITH instrumentation so that symbolic bytes are handled. */
#include <stddef.h>
int sxm_memcmp(const void*a,const void*b,size_t n){ const unsigned char*x=a,*y=b; for(size_t i=0;i<n;i++) if(x[i]!=y[i]) return x[i]<y[i]?-1:1; return 0; }
int sxm_bcmp(const void*a,const void*b,size_t n){ return sxm_memcmp(a,b,n); }
size_t sxm_strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
void* sxm_memchr(const void*a,int c,size_t n){ const unsigned char*x=a; for(size_t i=0;i<n;i++) if(x[i]==(unsigned char)c) return (void*)(x+i); return 0; }
int sxm_strcmp(const char*a,const char*b){ while(*a&&*a==*b){a++;b++;} return (int)(unsigned char)*a-(int)(unsigned char)*b; }
int sxm_strncmp(const char*a,const char*b,size_t n){ for(size_t i=0;i<n;i++){ if(a[i]!=b[i]) return (int)(unsigned char)a[i]-(int)(unsigned char)b[i]; if(!a[i]) return 0; } return 0; }
int sxm_isdigit(int c){ return c>='0'&&c<='9'; }
int sxm_isspace(int c){ return c==' '||(c>=9&&c<=13); }
int sxm_isalpha(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
int sxm_toupper(int c){ return (c>='a'&&c<='z')?c-32:c; }
int sxm_tolower(int c){ return (c>='A'&&c<='Z')?c+32:c; }
long sxm_strtol(const char*s,char**e,int base){ const char*p=s; while(sxm_isspace((unsigned char)*p)) p++; int neg=0; if(*p=='-'){neg=1;p++;} else if(*p=='+') p++; long v=0; int any=0; while(*p>='0'&&*p<='9'&&base==10){ v=v*10+(*p-'0'); p++; any=1; } if(e) *e=(char*)(any?p:s); return neg?-v:v; }
long sxm___isoc23_strtol(const char*s,char**e,int base){ return sxm_strtol(s,e,base); }
double sx_text_value(double);
double sxm_strtod(const char*p,char**e){ const char*s=p; int neg=0; if(*s=='-'){neg=1;s++;} double v=0; int any=0; while(*s>='0'&&*s<='9'){ v=v*10+(*s-'0'); s++; any=1; } if(*s=='.'){ double f=0.1; s++; while(*s>='0'&&*s<='9'){ v+=f*(*s-'0'); f*=0.1; s++; any=1; } } int x=0,xn=0; if(any&&(*s=='e'||*s=='E')&&((s[1]>='0'&&s[1]<='9')||((s[1]=='-'||s[1]=='+')&&s[2]>='0'&&s[2]<='9'))){ s++; if(*s=='-'||*s=='+') xn=*s++=='-'; while(*s>='0'&&*s<='9') x=x*10+(*s++-'0'); } for(;x>0;x--) v=xn?v/10:v*10; if(e) *e=(char*)(any?s:p); v=sx_text_value(v); return neg?-v:v; }
double sxm___isoc23_strtod(const char*p,char**e){ return sxm_strtod(p,e); }
