// Plans: the complete, self-contained description of one simulated execution, as text.
#include "world.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
u64 hstr(const string&s,u64 h){ for(unsigned char c:s) h=(h^c)*0x100000001b3ull; return h; }
string fmt(const char*f,...){ va_list a; va_start(a,f); char b[2048]; int n=vsnprintf(b,sizeof b,f,a); va_end(a); if(n<(int)sizeof b) return string(b,n<0?0:n); string s(n+1,0); va_start(a,f); vsnprintf(&s[0],n+1,f,a); va_end(a); s.resize(n); return s; }
string esc(const string&s){ if(s.empty()) return "%-"; string r; for(unsigned char c:s){ if(c<=32||c=='%'||c>=127){ char b[4]; snprintf(b,4,"%%%02X",c); r+=b; } else r+=(char)c; } return r; }
string unesc(const string&s){ if(s=="%-") return ""; string r; for(size_t i=0;i<s.size();i++){ if(s[i]=='%'&&i+2<s.size()){ r+=(char)strtol(s.substr(i+1,2).c_str(),0,16); i+=2; } else r+=s[i]; } return r; }
vector<string> split(const string&s,char c){ vector<string> v; size_t i=0; for(;;){ size_t j=s.find(c,i); v.push_back(s.substr(i,j==string::npos?string::npos:j-i)); if(j==string::npos) break; i=j+1; } return v; }
string plan_text(const Plan&p){ string r=fmt("prop %s\nseed %llu\nmode %s\n",p.prop.c_str(),(unsigned long long)p.seed,p.mode.c_str());
  for(auto&x:p.set) r+="set "+esc(x.first)+" "+esc(x.second)+"\n";
  for(auto&x:p.rates) r+="rate "+x.first+fmt(" %llu\n",(unsigned long long)x.second);
  for(auto&o:p.ops){ r+=fmt("op %lld ",(long long)o.t)+o.kind; for(auto&a:o.a) r+=" "+esc(a); r+="\n"; }
  for(auto&t:p.trigs){ r+=fmt("trig %d %s %d %s %d",t.life,t.anchor.c_str(),t.occ,t.unit.c_str(),t.off); for(auto&a:t.act) r+=" "+esc(a); r+="\n"; }
  for(auto&f:p.faults) r+=fmt("fault %s %llu %s\n",f.cls.c_str(),(unsigned long long)f.nth,f.eff.c_str());
  return r; }
bool plan_parse(const string&t,Plan&p){ p=Plan(); for(auto&l:split(t,'\n')){ if(l.empty()||l[0]=='#') continue; vector<string> w=split(l,' '); const string&k=w[0]; if(w.size()<2) return false;
    if(k=="prop") p.prop=w[1]; else if(k=="seed") p.seed=strtoull(w[1].c_str(),0,10); else if(k=="mode") p.mode=w[1];
    else if(k=="set"&&w.size()>2) p.set[unesc(w[1])]=unesc(w[2]); else if(k=="rate"&&w.size()>2) p.rates[w[1]]=strtoull(w[2].c_str(),0,10);
    else if(k=="op"&&w.size()>2){ Op o; o.t=strtoll(w[1].c_str(),0,10); o.kind=w[2]; for(size_t i=3;i<w.size();i++) o.a.push_back(unesc(w[i])); p.ops.push_back(o); }
    else if(k=="trig"&&w.size()>6){ Trig x; x.life=atoi(w[1].c_str()); x.anchor=w[2]; x.occ=atoi(w[3].c_str()); x.unit=w[4]; x.off=atoi(w[5].c_str()); for(size_t i=6;i<w.size();i++) x.act.push_back(unesc(w[i])); p.trigs.push_back(x); }
    else if(k=="fault"&&w.size()>3) p.faults.push_back({w[1],strtoull(w[2].c_str(),0,10),w[3]});
    else if(k=="expect"||k=="violation"||k=="hash"||k=="variant") ; else return false; }
  return !p.prop.empty(); }
