#include "model.h"
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <algorithm>

// ---------------------------------------------------------------- configuration
static string trim(const string&s){ size_t a=0,b=s.size(); while(a<b&&isspace((unsigned char)s[a])) a++; while(b>a&&isspace((unsigned char)s[b-1])) b--; return s.substr(a,b-a); }
static bool toint(const string&v,i64&o){ if(v.empty()) return false; char*e; long long x=strtoll(v.c_str(),&e,10); while(*e&&isspace((unsigned char)*e)) e++; if(*e||x>2147483647LL||x<-2147483648LL) return false; o=x; return true; }
static bool tobool(const string&v,bool&o){ if(v=="true"||v=="1"){ o=true; return true;} if(v=="false"||v=="0"){ o=false; return true;} return false; }
bool conf_parse(const string&text,Conf&c){ c=Conf(); string grp; bool ok=true; i64 proc=-1; bool hasproc=false; size_t pos=0;
  while(pos<=text.size()){ size_t e=text.find('\n',pos); string l=text.substr(pos,e==string::npos?string::npos:e-pos); pos=e==string::npos?text.size()+1:e+1; string t=trim(l); if(t.empty()||t[0]=='#') continue;
    if(t[0]=='['){ if(t.back()!=']') return false; grp=t.substr(1,t.size()-2); continue; }
    size_t q=t.find('='); if(q==string::npos||grp.empty()) return false; string k=trim(t.substr(0,q)),v=trim(t.substr(q+1)); if(k.empty()) return false;
    auto I=[&](i64&o){ if(!toint(v,o)) ok=false; }; auto B=[&](bool&o){ if(!tobool(v,o)) ok=false; }; auto L=[&](vector<string>&o){ o.clear(); for(auto&x:split(v,';')) o.push_back(x); if(!o.empty()&&o.back().empty()) o.pop_back(); };
    if(grp=="model"){ if(k=="cycle") I(c.cycle); else if(k=="usecorrelation") B(c.usecorrelation); else if(k=="minsize") I(c.minsize); else if(k=="memtotal") I(c.memtotal); else if(k=="memfree") I(c.memfree); else if(k=="memcached") I(c.memcached); else if(k=="membuffers") I(c.membuffers); }
    else if(grp=="system"){ if(k=="doscan") B(c.doscan); else if(k=="dopredict") B(c.dopredict); else if(k=="autosave") I(c.autosave); else if(k=="mapprefix"){ L(c.mapprefix); c.has_map=true; } else if(k=="exeprefix"){ L(c.exeprefix); c.has_exe=true; } else if(k=="prediction_algorithm") c.algo=v; else if(k=="maxprocs") I(c.maxprocs); else if(k=="processes"){ I(proc); hasproc=true; } else if(k=="sortstrategy") I(c.sort); } }
  if(hasproc) c.maxprocs=proc; if(c.cycle<1) c.cycle=1; if(c.cycle>86400) c.cycle=86400; if(c.autosave<1) c.autosave=1; if(c.minsize<0) c.minsize=0; return ok; }
bool accept_path(const string&p,const vector<string>&rules){ for(auto&r:rules){ bool acc=true; string q=r; if(!q.empty()&&q[0]=='!'){ acc=false; q=q.substr(1); } if(!p.compare(0,q.size(),q)) return acc; } return true; }
bool sanitize_path(string&p){ if(p.empty()||p[0]!='/') return false; size_t k=p.find(".#prelink#."); if(k!=string::npos){ p=p.substr(0,k); return true; } if(p.find("(deleted)")!=string::npos) return false; return true; }

// ---------------------------------------------------------------- state files
static bool unuri(const string&u,string&out){ if(u.compare(0,8,"file:///")) return false; out.clear(); for(size_t i=7;i<u.size();i++){ if(u[i]=='%'){ if(i+2>=u.size()||!isxdigit((unsigned char)u[i+1])||!isxdigit((unsigned char)u[i+2])) return false; int v=(int)strtol(u.substr(i+1,2).c_str(),0,16); if(!v) return false; out+=(char)v; i+=2; } else { if((unsigned char)u[i]<=32||(unsigned char)u[i]>=127) return false; out+=u[i]; } } return true; }
static bool big_num; static bool num64(const string&s,i64&o){ if(s.empty()||!(s[0]=='-'||(s[0]>='0'&&s[0]<='9'))) return false; char*e; o=strtoll(s.c_str(),&e,10); return !*e; }
static bool num(const string&s,i64&o){ if(!num64(s,o)) return false; if(o>2147483647ll||o<-2147483647ll-1) big_num=true; return true; }
bool state_parse(const string&b,PState&s){ s=PState(); big_num=false; auto bad=[&](const string&w){ s.why=w; s.valid=false; return false; };
  if(b.empty()) return bad("empty file"); if(b.back()!='\n') return bad("last line is cut off");
  map<i64,MapKey> mi; map<i64,string> ei; map<i64,vector<string>> vi; vi[0]={}; int ln=0; size_t pos=0; set<i64> refd;
  while(pos<b.size()){ size_t e=b.find('\n',pos); string l=b.substr(pos,e-pos); pos=e+1; ln++; vector<string> f=split(l,'\t'); const string&t=f[0]; string at=fmt("line %d: ",ln);
    if(ln==1){ if(t!="PRELOAD"||f.size()!=3||f[1].find_first_not_of("0123456789.")!=string::npos||f[1].size()<3||f[1].compare(0,2,"0.")||!num(f[2],s.time)) return bad(at+"bad header"); if(s.time<0||s.time>2000000000) s.odd=true; continue; }
    if(t=="MAP"){ i64 i,u,o,n,x; string p; if(f.size()!=7||!num(f[1],i)||!num(f[2],u)||!num64(f[3],o)||!num64(f[4],n)||!num(f[5],x)||!unuri(f[6],p)) return bad(at+"bad MAP"); if(mi.count(i)) return bad(at+"region number twice"); if(!i||o<0||n<0||o>(1ll<<50)||n>(1ll<<50)) s.odd=true; MapKey k{p,(u64)o,(u64)n}; if(!s.maps.insert(k).second) return bad(at+"region twice"); mi[i]=k; s.mapupd[k]=u; }
    else if(t=="BADEXE"){ string p; i64 a,x; if(f.size()!=4||!num(f[1],a)||!num(f[2],x)||!unuri(f[3],p)) return bad(at+"bad BADEXE"); s.bad.insert(p); }
    else if(t=="EXE"){ i64 i,u,tm,x; string p; if(f.size()!=6||!num(f[1],i)||!num(f[2],u)||!num(f[3],tm)||!num(f[4],x)||!unuri(f[5],p)) return bad(at+"bad EXE"); if(ei.count(i)||s.exes.count(p)) return bad(at+"application twice"); if(!i||tm<0||tm>s.time||u<-1) s.odd=true; ei[i]=p; MExe&m=s.exes[p]; m.time=tm; m.upd=u; }
    else if(t=="EXEMAP"){ i64 a,c; if(f.size()!=4||!num(f[1],a)||!num(f[2],c)||!ei.count(a)||!mi.count(c)) return bad(at+"bad EXEMAP"); { char*q; double pr=strtod(f[3].c_str(),&q); if(f[3].empty()||*q||(unsigned char)f[3][0]<=32) return bad(at+"bad EXEMAP share"); if(!(pr>=0&&pr<=1)) s.odd=true; } s.exes[ei[a]].maps.push_back(mi[c]); refd.insert(c); }
    else if(t=="MARKOV"){ i64 a,c,tm; if(f.size()!=24||!num(f[1],a)||!num(f[2],c)||!num(f[3],tm)||!ei.count(a)||!ei.count(c)||a==c) return bad(at+"bad MARKOV"); PKey k=pkey(ei[a],ei[c]); if(s.pairs.count(k)) return bad(at+"pair twice"); if(tm<0||tm>s.exes[k.first].time||tm>s.exes[k.second].time) s.odd=true; MPair&p=s.pairs[k]; p.time=tm; bool sw=k.first!=ei[a]; auto P=[&](int x){ return sw?((x&1)<<1|(x>>1)):x; };
      for(int i=0;i<4;i++){ char*q; p.ttl[P(i)]=strtod(f[4+i].c_str(),&q); if(*q||f[4+i].empty()||(unsigned char)f[4+i][0]<=32) return bad(at+"bad MARKOV time"); if(!(p.ttl[P(i)]>=0&&p.ttl[P(i)]<=2e9)) s.odd=true; } for(int i=0;i<4;i++) for(int j=0;j<4;j++){ i64 v; if(!num(f[8+4*i+j],v)) return bad(at+"bad MARKOV count"); if(v<0||v>2000000000) s.odd=true; p.w[P(i)][P(j)]=v; } }
    else if(t=="VOMMNODE"){ i64 i,x,n,p; if(f.size()!=5||!num(f[1],i)||!num(f[2],x)||!num(f[3],n)||!num(f[4],p)||!ei.count(x)||!vi.count(p)||vi.count(i)) return bad(at+"bad VOMMNODE"); vector<string> w=vi[p]; if(w.size()>100) return bad(at+"sequence too deep"); if(w.size()>=5||n<0) s.odd=true; VNode*v=vwalk(s.vomm,w); if(!v||v->ch.count(ei[x])) return bad(at+"sequence node twice"); v->ch[ei[x]].count=n; w.push_back(ei[x]); vi[i]=w; s.has_vomm=true; }
    else return bad(at+"unknown record"); }
  for(auto&m:mi) if(!refd.count(m.first)) return bad("region "+m.second.path+" belongs to no application");
  for(auto&e:s.exes) std::sort(e.second.maps.begin(),e.second.maps.end()); if(big_num) s.odd=true; s.valid=true; return true; }
VNode* vwalk(VNode&r,const vector<string>&p){ VNode*v=&r; for(auto&x:p){ auto i=v->ch.find(x); if(i==v->ch.end()) return nullptr; v=&i->second; } return v; }

// ---------------------------------------------------------------- the model
void Model::load(const PState&p){ reset(); s=p; last_acc=s.time; for(auto&e:s.exes){ e.second.ct=-1; e.second.running=false; } for(auto&q:s.pairs){ q.second.ct=s.time; q.second.state=0; } badset.clear(); s.bad.clear(); }
void Model::vomm_ensure(){ if(!c.vomm()) return; vomm_on=true; if(s.vomm.ch.empty()){ for(auto&p:s.pairs){ const string&a=p.first.first,&b=p.first.second; i64 ab=p.second.w[1][3], ba=p.second.w[2][3]; if(ab>0){ s.vomm.ch[a].ch[b].count+=ab; } if(ba>0){ s.vomm.ch[b].ch[a].count+=ba; } } } }
void Model::vomm_update(const string&e){ if(!c.vomm()||!vomm_on) return; hist.push_back(e); if(hist.size()>5) hist.pop_front(); if(ctx.size()>=5) ctx.clear(); VNode*v=vwalk(s.vomm,ctx); if(!v){ ctx.clear(); v=&s.vomm; } v->ch[e].count++; ctx.push_back(e); if(hist.size()>=2){ const string&pv=hist[hist.size()-2]; s.vomm.ch[pv].ch[e].count++; } }
static void vdrop(VNode&v,const string&e){ v.ch.erase(e); for(auto&c:v.ch) vdrop(c.second,e); }
void Model::forget(const string&e){ { auto x=s.exes.find(e); vector<MapKey> own; if(x!=s.exes.end()) own=x->second.maps; s.exes.erase(e); set<MapKey> left; for(auto&y:s.exes) for(auto&k:y.second.maps) left.insert(k); for(auto&k:own) if(!left.count(k)) s.mapupd.erase(k); } for(auto i=s.pairs.begin();i!=s.pairs.end();) if(i->first.first==e||i->first.second==e) i=s.pairs.erase(i); else ++i; vdrop(s.vomm,e); for(auto i=hist.begin();i!=hist.end();) if(*i==e) i=hist.erase(i); else ++i; if(std::find(ctx.begin(),ctx.end(),e)!=ctx.end()) ctx.clear(); changed.erase(std::remove(changed.begin(),changed.end(),e),changed.end()); }
void Model::pair_change(MPair&p,const PKey&k){ if(p.ct==s.time) return; int o=p.state,n=pstate(k); if(o==n) return; p.w[o][o]++; p.ttl[o]+=((double)(s.time-p.ct)-p.ttl[o])/p.w[o][o]; p.w[o][n]++; p.state=n; p.ct=s.time; }
void Model::add_exe(const string&path,const vector<MapKey>&maps){ MExe&n=s.exes[path]; n=MExe(); n.upd=last_run; n.running=true; n.ct=s.time; n.maps=maps; std::sort(n.maps.begin(),n.maps.end()); for(auto&k:n.maps) s.mapupd.emplace(k,s.time);
  for(auto&e:s.exes){ if(e.first==path) continue; PKey k=pkey(e.first,path); MPair&p=s.pairs[k]; p=MPair(); int st=pstate(k); p.ct=s.time; p.state=st; if(e.second.ct>0&&n.ct>0&&e.second.ct<s.time){ p.ct=e.second.ct; p.state=st&~(k.first==path?1:2); pair_change(p,k); } }
  vomm_update(path); }
void Model::apply_tick2(){ if(!tick2_pending) return; tick2_pending=false; tick2_seen=false; if(tick2_model){ tick2_model=false;
    for(auto&e:changed){ auto i=s.exes.find(e); if(i==s.exes.end()) continue; i->second.ct=s.time; } for(auto&e:changed) if(s.exes.count(e)) for(auto&p:s.pairs) if(p.first.first==e||p.first.second==e) pair_change(p.second,p.first);
    changed.clear(); for(auto&p:neworder){ auto r=newres.find(p); if(r==newres.end()) continue; if(r->second==2) badset.insert(p); else if(r->second==1&&!s.exes.count(p)){ /* regions were recorded in pending */ auto q=pending.find(p); add_exe(p,q==pending.end()?vector<MapKey>():q->second); } }
    newq.clear(); neworder.clear(); newres.clear(); pending.clear();
    i64 per=s.time-last_acc; for(auto&e:s.exes) if(e.second.running) e.second.time+=per; for(auto&p:s.pairs) if(p.second.state==3) p.second.time+=per; last_acc=s.time; dirty=true; }
  s.time+=(c.cycle+1)/2; }

// ---------------------------------------------------------------- comparison
static void vdiff(const VNode&a,const VNode&b,const string&at,string&out){ if(!out.empty()) return; for(auto&c:a.ch){ auto i=b.ch.find(c.first); if(i==b.ch.end()){ out="launch sequence "+at+"/"+esc(c.first)+fmt(" (count %lld) is missing",(long long)c.second.count); return; } if(i->second.count!=c.second.count){ out="launch sequence "+at+"/"+esc(c.first)+fmt(" has count %lld instead of %lld",(long long)i->second.count,(long long)c.second.count); return; } vdiff(c.second,i->second,at+"/"+esc(c.first),out); if(!out.empty()) return; } for(auto&c:b.ch) if(!a.ch.count(c.first)){ out="launch sequence "+at+"/"+esc(c.first)+fmt(" (count %lld) was never observed",(long long)c.second.count); return; } }
static string lines(const vector<MapKey>&v){ string r; int n=0; for(auto&m:v){ if(n++>5){ r+=" ..."; break; } r+=fmt(" %s+%llu:%llu",esc(m.path).c_str(),(unsigned long long)m.off,(unsigned long long)m.len); } return r; }
vector<std::pair<string,string>> state_diff(const PState&a,const PState&b){ vector<std::pair<string,string>> d; auto add=[&](const string&k,const string&m){ for(auto&x:d) if(x.first==k) return; d.push_back({k,m}); };
  if(a.time!=b.time) add("clock",fmt("model clock %lld instead of %lld",(long long)b.time,(long long)a.time));
  for(auto&e:a.exes){ auto i=b.exes.find(e.first); string n=esc(e.first); if(i==b.exes.end()){ add("exe-missing","application "+n+" is not in the saved state"); continue; } const MExe&x=e.second,&y=i->second; if(x.time!=y.time) add("exe-time",fmt("running time of %s is %lld instead of %lld",n.c_str(),(long long)y.time,(long long)x.time)); if(x.upd!=y.upd) add("exe-upd",fmt("update time of %s is %lld instead of %lld",n.c_str(),(long long)y.upd,(long long)x.upd)); if(!(x.maps==y.maps)) add("exe-maps","regions of "+n+" are"+lines(y.maps)+" instead of"+lines(x.maps)); }
  for(auto&m:b.mapupd){ auto i=a.mapupd.find(m.first); if(i!=a.mapupd.end()&&i->second!=m.second) add("map-upd",fmt("the time region %s+%llu:%llu was first seen is %lld instead of %lld",esc(m.first.path).c_str(),(unsigned long long)m.first.off,(unsigned long long)m.first.len,(long long)m.second,(long long)i->second)); }
  for(auto&e:b.exes) if(!a.exes.count(e.first)) add("exe-extra","application "+esc(e.first)+" is in the saved state and should not be");
  for(auto&p:a.pairs){ auto i=b.pairs.find(p.first); string n=esc(p.first.first)+" and "+esc(p.first.second); if(i==b.pairs.end()){ add("pair-missing","statistics of "+n+" are missing"); continue; } const MPair&x=p.second,&y=i->second; if(x.time!=y.time) add("pair-time",fmt("joint time of %s is %lld instead of %lld",n.c_str(),(long long)y.time,(long long)x.time));
    for(int s=0;s<4;s++){ for(int t=0;t<4;t++) if(x.w[s][t]!=y.w[s][t]) add("pair-weight",fmt("for %s the count %d->%d is %lld instead of %lld",n.c_str(),s,t,(long long)y.w[s][t],(long long)x.w[s][t])); double tol=2e-5*fabs(x.ttl[s])+1e-9; if(fabs(x.ttl[s]-y.ttl[s])>tol) add("pair-ttl",fmt("for %s the mean stay in state %d is %g instead of %g",n.c_str(),s,y.ttl[s],x.ttl[s])); } }
  for(auto&p:b.pairs) if(!a.pairs.count(p.first)) add("pair-extra","statistics of "+esc(p.first.first)+" and "+esc(p.first.second)+" should not exist");
  string v; vdiff(a.vomm,b.vomm,"",v); if(!v.empty()) add("vomm",v); return d; }

// ---------------------------------------------------------------- prediction
static void ppm(Model&m,const VNode&v,map<string,double>&x){ i64 tot=0; for(auto&c:v.ch) tot+=c.second.count; if(!tot) return; for(auto&c:v.ch){ auto e=m.s.exes.find(c.first); if(e==m.s.exes.end()||e->second.running) continue; double q=(double)c.second.count/tot; q=fmax(1e-9,fmin(1-1e-9,q)); x[c.first]+=log(1-q); } }
void predict(Model&m,map<MapKey,double>&ln,map<string,double>*exeln){ map<string,double> x; Conf&c=m.c;
  if(c.vomm()){ for(auto&h:m.hist){ auto i=m.s.vomm.ch.find(h); if(i!=m.s.vomm.ch.end()&&!i->second.ch.empty()) ppm(m,i->second,x); }
    if(!m.ctx.empty()){ VNode*v=vwalk(m.s.vomm,m.ctx); if(v&&!v->ch.empty()){ ppm(m,*v,x); for(auto&k:v->ch){ auto e=m.s.exes.find(k.first); if(e==m.s.exes.end()||e->second.running||k.second.count<=0) continue; x[k.first]-=log(1.1); } } }
    i64 tot=0; for(auto&a:m.s.vomm.ch) for(auto&b:a.second.ch) tot+=b.second.count; if(tot) for(auto&a:m.s.vomm.ch) for(auto&b:a.second.ch){ auto e=m.s.exes.find(b.first); if(e==m.s.exes.end()||e->second.running||b.second.count<=0) continue; double g=0.1+0.4*((double)b.second.count/tot); if(g>0.5) g=0.5; x[b.first]+=log(1-g); } }
  else for(auto&pp:m.s.pairs){ MPair&p=pp.second; int st=p.state; if(!p.w[st][st]) continue; double cor=1; i64 t=m.s.time,a=m.s.exes[pp.first.first].time,b=m.s.exes[pp.first.second].time,ab=p.time; if(c.usecorrelation){ if(a==0||a==t||b==0||b==t) cor=0; else cor=((double)t*ab-(double)a*b)/sqrt(((double)a*b)*((double)(t-a)*(t-b))); }
    auto bid=[&](const string&y,int ys){ if(!(p.ttl[st]>1)) return; double ch=1-exp(-c.cycle*1.5/p.ttl[st]); double nx=(double)(p.w[st][ys]+p.w[st][3])/(p.w[st][st]+0.01); x[y]+=log(1-fabs(cor)*ch*nx); };
    if(!(st&1)) bid(pp.first.first,1); if(!(st&2)) bid(pp.first.second,2); }
  for(auto&e:m.s.exes) for(auto&k:e.second.maps){ double&l=ln[k]; if(e.second.running) l+=1; else { auto i=x.find(e.first); if(i!=x.end()) l+=i->second; } }
  if(exeln) *exeln=x; }
