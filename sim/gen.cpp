// Seeded generators: one plan per (property, seed). Each profile aims the machine, the workload and the faults at one
// property; a part of the seeds of every profile uses the mixed profile, so that unusual combinations meet everywhere.
#include "world.h"
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <math.h>

static const char*STATE="/var/lib/preload/preload.state"; static const char*LOGP="/var/log/preload.log";
static const i64 SEC=1000000;
struct GMap { u64 len,off; string perm,path; };
struct GApp { string exe; vector<GMap> maps; u64 total() const { u64 t=0; for(auto&m:maps) if(!m.path.empty()) t+=m.len; return t; } };
struct GConf { i64 cycle=20; bool corr=true; i64 minsize=2000000,memtotal=-10,memfree=50,memcached=0,membuffers=50; bool doscan=true,dopredict=true; i64 autosave=3600; string mapprefix,exeprefix; bool has_map=false,has_exe=false; string algo="VOMM"; i64 maxprocs=30; i64 sort=3; bool defaults=false; int style=0; };
static string uri(const string&p){ string r="file://"; for(unsigned char c:p){ if(isalnum(c)||strchr("-_.!~*'()/&=:@+$,",c)) r+=(char)c; else r+=fmt("%%%02X",c); } return r; }

struct Gen { Rng r; Plan&p; string prop; vector<GApp> apps; GConf c; i64 t=0; int life=0; bool extra=false; vector<string> libs; bool alive=false; vector<string> argv;
  Gen(u64 seed,Plan&pl,const string&pr):r(hcomb(seed,hstr(pr))),p(pl),prop(pr){}
  bool one(int n){ return r.below(n)==0; } i64 R(i64 a,i64 b){ return r.range(a,b); }
  void op(i64 at,const string&k,vector<string> a={}){ Op o; o.t=at; o.kind=k; o.a=a; p.ops.push_back(o); }
  void now(const string&k,vector<string> a={}){ op(t,k,a); }
  string I(i64 x){ return fmt("%lld",(long long)x); }
  // ---- names
  string strange(int maxlen){ static const vector<string> parts={" ","%","%20","\xc3\xa9","\xff","#","\\","'","\"","&","+","=","a b","%%d","\xe6\x97\xa5","..x","~","*","?","(x)","file:","\x01","\x7f"}; string s; int n=(int)R(1,6); for(int i=0;i<n;i++) s+=r.pick(parts)+string(1,'a'+(char)r.below(26)); if((int)s.size()>maxlen) s.resize(maxlen); while(!s.empty()&&(s.back()==' '||s.back()=='\t')) s.pop_back(); return s.empty()?"x":s; }
  string longname(int n){ string s; int comp=0; static const vector<string> ch={"a","b","-"," ","%","\xc3\xa9","\xff"}; bool plain=one(2); while((int)s.size()<n){ if(comp>R(60,200)){ s+="/"; comp=0; } const string&x=plain?ch[r.below(3)]:r.pick(ch); s+=x; comp+=(int)x.size(); } while(!s.empty()&&(s.back()==' '||s.back()=='/')) s.pop_back(); return s; }
  // ---- applications
  void make_apps(int n,int wild,bool ranges=false,bool small=true){ int nl=(int)R(2,6); for(int i=0;i<nl;i++){ string q=fmt("/usr/lib/lib%c%d.so",'a'+(int)r.below(26),i); if((int)r.below(100)<wild) q="/usr/lib/"+strange(40); if((int)r.below(300)<wild) q="/usr/lib/"+longname((int)R(120,900)); libs.push_back(q); }
    for(int i=0;i<n;i++){ GApp a; a.exe=fmt("/usr/bin/app%d",i); if((int)r.below(100)<wild) a.exe="/usr/bin/"+strange(40)+fmt("%d",i); if((int)r.below(300)<wild) a.exe=fmt("/usr/bin/%d",i)+longname((int)R(100,450)); if(wild&&one(25)) a.exe=fmt("/usr/bin/nl\nx%d",i);
      i64 base=small&&one(8)?R(1,30):R(60,3000); a.maps.push_back({(u64)base*4096,0,"r-xp",a.exe.find('\n')==string::npos?a.exe:"/usr/bin/plain"+I(i)}); if(one(2)) a.maps.push_back({(u64)R(1,200)*4096,(u64)base*4096,one(2)?"rw-p":"r--p",a.maps[0].path});
      int k=(int)R(0,4); for(int j=0;j<k;j++){ GMap m; m.path=r.pick(libs); m.perm=one(3)?"rw-p":"r-xp"; if(ranges){ m.off=(u64)R(0,40)*4096; m.len=(u64)R(1,40)*4096; if(one(5)){ m.off=0; m.len=(u64)R(40,120)*4096; } } else { u64 h=hstr(m.path); u64 s0=(h%40+5)*4096; static const int parts[3][2]={{0,1},{1,1},{2,2}}; int q=(int)r.below(3); m.off=s0*parts[q][0]; m.len=s0*parts[q][1]; } a.maps.push_back(m); }
      if(one(3)) a.maps.push_back({(u64)R(1,400)*4096,0,"rw-p",one(2)?"":one(2)?"[heap]":"[stack]"}); apps.push_back(a); } }
  void put_apps(){ for(size_t i=0;i<apps.size();i++){ string s=apps[i].exe.find('\n')==string::npos?apps[i].exe:apps[i].exe; string q; if(s.find('\n')!=string::npos){ q=s; } string t; for(auto&m:apps[i].maps) t+=fmt("\n%llu %llu %s ",(unsigned long long)m.len,(unsigned long long)m.off,m.perm.c_str())+m.path; p.set["app"+I(i)]=enc(s)+t; } }
  static string enc(const string&s){ string r; for(char c:s) if(c=='\n') r+="\x1e"; else r+=c; return r; } // newline in a program name travels as 0x1e
  // ---- configuration
  void make_conf(){ c=GConf(); static const i64 cyc[]={4,5,7,10,20,31}; c.cycle=cyc[r.below(6)]; c.minsize=one(3)?0:one(2)?100000:one(2)?500000:2000000; c.autosave=one(2)?3600:R(30,400); c.algo=one(3)?"\"Markov\"":one(2)?"\"VOMM\"":"VOMM"; if(c.algo.find("Mark")!=string::npos&&one(2)) c.algo="Markov"; c.sort=R(0,3); c.maxprocs=one(3)?30:one(4)?0:R(1,5); c.memfree=one(2)?50:R(0,100); c.corr=!one(3); mapx(); }
  void mapx(){ if(one(3)){ c.has_map=true; c.mapprefix="/usr/;/lib;/var/cache/;!/"; } if(one(3)){ c.has_exe=true; c.exeprefix="!/usr/sbin/;!/usr/local/sbin/;/usr/;!/"; } }
  string conf_text(const GConf&c){ string r0; auto kv=[&](const string&k,const string&v){ if(c.style==1) r0+=k+"="+v+"\n"; else r0+=k+" = "+v+"\n"; }; if(c.style==2) r0+="# a comment\n\n"; r0+="[model]\n"; kv("cycle",I(c.cycle)); kv("usecorrelation",c.corr?"true":"false"); kv("minsize",I(c.minsize)); kv("memtotal",I(c.memtotal)); kv("memfree",I(c.memfree)); kv("memcached",I(c.memcached)); kv("membuffers",I(c.membuffers)); r0+="\n[system]\n"; kv("doscan",c.doscan?"true":"false"); kv("dopredict",c.dopredict?"true":"false"); kv("autosave",I(c.autosave)); if(c.has_map) kv("mapprefix",c.mapprefix); if(c.has_exe) kv("exeprefix",c.exeprefix); kv("prediction_algorithm",c.algo); kv(c.style==2?"processes":"maxprocs",I(c.maxprocs)); kv("sortstrategy",I(c.sort)); return r0; }
  bool ship_ok=false;
  void put_conf(){ c.style=(int)r.below(3); p.set["conf"]=conf_text(c); if(ship_ok&&one(10)&&g_shipped[0]&&!p.set.count("shipped")){ ship_ok=false; p.set["shipped"]="1"; p.set["conf"]=g_shipped; } }
  // ---- lifetimes and workload; every part appends in time order, finish() sorts
  void start(bool fg=true){ argv.clear(); if(fg) argv.push_back("-f"); if(one(3)){ argv.push_back("-V"); argv.push_back(I(R(0,9))); } now("start",argv); alive=true; life++; }
  void startv(const vector<string>&a){ argv=a; now("start",a); alive=true; life++; }
  // random launching and stopping for n cycles
  void work(int n,double rate=0.5,int maxinst=3){ i64 end=t+n*c.cycle*SEC; if(apps.empty()){ t=end; return; } i64 x=t; i64 step=(i64)(c.cycle*SEC/(rate>0.01?rate:0.01)); while((x+=R(step/4,step*7/4))<end){ int a=(int)r.below(apps.size()); switch(r.below(10)){ case 0: case 1: case 2: case 3: op(x,"run",{I(a),I(one(4)?R(1,maxinst):1)}); break; case 4: case 5: case 6: case 7: op(x,"stop",{I(a)}); break; case 8: op(x,"stop1",{I(a)}); break; default: if(one(3)) op(x,"exec",{I(a),I(r.below(apps.size()))}); else if(one(2)) op(x,"reuse",{I(a),I(r.below(apps.size()))}); else { op(x,"stop",{I(a)}); int b=(int)r.below(apps.size()); op(x,"run",{I(b)}); } } } t=end; }
  // a sequence launched again and again, so that predictors have something to predict
  void routine(int n){ i64 end=t+n*c.cycle*SEC; vector<int> seq; int k=(int)R(2,5); for(int i=0;i<k;i++) seq.push_back((int)r.below(apps.size())); i64 x=t; size_t i=0; std::deque<int> open; while(x<end){ int a=one(9)?(int)r.below(apps.size()):seq[i++%seq.size()]; op(x,"run",{I(a)}); open.push_back(a); if((int)open.size()>(int)R(1,3)){ op(x+R(0,c.cycle*SEC/2),"stop",{I(open.front())}); open.pop_front(); } x+=(i64)(c.cycle*SEC*(0.6+0.1*R(0,15))); } while(!open.empty()){ if(!one(3)) op(end-SEC,"stop",{I(open.front())}); open.pop_front(); } t=end; }
  void stopd(int sig=15){ now("sig",{I(sig)}); alive=false; t+=30*SEC+c.cycle*3*SEC; }
  void gap(i64 a,i64 b){ t+=R(a,b)*SEC; }
  void mem_small(){ i64 tot=R(20,4000)*1000; now("mem",{"MemTotal",I(tot),"MemFree",I(R(0,tot)),"MemAvailable",I(R(0,tot)),"Cached",I(R(0,tot)),"Buffers",I(R(0,tot/4))}); if(one(2)) mem_lists(tot); }
  void mem_lists(i64 tot){ static const vector<string> k={"SwapCached","Active","Inactive","Active(anon)","Inactive(anon)","Active(file)","Inactive(file)","Dirty","Shmem","Slab","SReclaimable","KReclaimable","SwapFree","SwapTotal"}; vector<string> a; for(auto&x:k) if(one(2)){ a.push_back(x); a.push_back(one(5)?"-":I(R(0,tot))); } if(!a.empty()) now("mem",a); }
  void mem_noavail(){ i64 tot=R(20,4000)*1000; i64 ca=one(4)?0:R(0,tot),bu=one(4)?0:R(0,tot-ca); if(one(3)){ ca/=4; bu/=20; } now("mem",{"MemTotal",I(tot),"MemFree",I(R(1,1+tot/(one(2)?50:3))),"MemAvailable",one(3)?"0":"-","Cached",I(ca),"Buffers",I(bu)}); if(one(2)) mem_lists(tot); }
  void trig(int life,const string&anchor,int occ,const string&unit,int off,vector<string> act){ Trig x; x.life=life; x.anchor=anchor; x.occ=occ; x.unit=unit; x.off=off; x.act=act; p.trigs.push_back(x); }
  void flt(const string&cls,i64 nth,const string&eff){ p.faults.push_back({cls,(u64)nth,eff}); }
  void finish(){ put_apps(); std::stable_sort(p.ops.begin(),p.ops.end(),[](const Op&a,const Op&b){ return a.t<b.t; }); p.set["end"]=I(t+5*SEC); }
  // ---- a state file as the daemon itself would have written it after a long life
  struct St { i64 time; vector<GApp> e; vector<i64> et; string text; };
  string valid_state(int napp,bool rich,bool pairs=true){ vector<GApp> A; for(auto&a:apps) if(a.exe[0]=='/') A.push_back(a); i64 time=one(8)?R(1000000,one(2)?900000000:20000000):R(200,400000); string s=fmt("PRELOAD\t0.6.4\t%lld\n",(long long)time); vector<int> ids; int n=std::min(napp,(int)A.size()); vector<i64> et; map<string,int> mid; string maps,exem; int mseq=(int)R(0,50);
    auto acceptable=[&](const string&q){ return !q.empty()&&q[0]=='/'&&q.find("(deleted)")==string::npos&&q.find('\n')==string::npos; };
    string exes; int es=(int)R(0,30); vector<int> seqs; bool idless=true; (void)idless;
    for(int i=0;i<n;i++){ GApp&a=A[i]; es+=(int)R(1,3); seqs.push_back(es); i64 tt=R(0,time*9/10); if(one(6)) tt=0; et.push_back(tt); exes+=fmt("EXE\t%d\t%lld\t%lld\t-1\t",es,(long long)(one(4)?-1:R(0,time)),(long long)tt)+uri(a.exe)+"\n"; for(auto&m:a.maps){ if(!acceptable(m.path)||!m.len) continue; string k=m.path+fmt("\n%llu %llu",(unsigned long long)m.off,(unsigned long long)m.len); if(!mid.count(k)){ mseq+=(int)R(1,3); mid[k]=mseq; maps+=fmt("MAP\t%d\t%lld\t%llu\t%llu\t-1\t",mseq,(long long)R(0,time),(unsigned long long)m.off,(unsigned long long)m.len)+uri(m.path)+"\n"; } exem+=fmt("EXEMAP\t%d\t%d\t1\n",es,mid[k]); }
      if(extra&&!libs.empty()) for(int q=(int)R(0,3);q>0;q--){ string path=r.pick(libs); u64 off=one(3)?(u64)R(0,60)*4096:one(2)?(u64)R(0,240000):(u64)R(0,6)*1073741824ull+(u64)R(0,9)*4096, len=one(2)?(u64)R(1,60)*4096:(u64)R(1,200000); string k=path+fmt("\n%llu %llu",(unsigned long long)off,(unsigned long long)len); if(mid.count(k)) continue; mseq+=(int)R(1,3); mid[k]=mseq; maps+=fmt("MAP\t%d\t%lld\t%llu\t%llu\t-1\t",mseq,(long long)R(0,time),(unsigned long long)off,(unsigned long long)len)+uri(path)+"\n"; exem+=fmt("EXEMAP\t%d\t%d\t1\n",es,mseq); } }
    s+=maps+exes+exem;
    if(pairs) for(int i=0;i<n;i++) for(int j=i+1;j<n;j++){ i64 hi=std::min(et[i],et[j]),lo=std::max<i64>(0,et[i]+et[j]-time),tt=R(lo,std::max(lo,hi/2)); if(one(3)) tt=lo; s+=fmt("MARKOV\t%d\t%d\t%lld",seqs[i],seqs[j],(long long)tt); double ttl[4]; int w[4][4]={{0}}; i64 left=time; for(int a=0;a<4;a++){ int out=0; for(int b=0;b<4;b++) if(a!=b&&rich&&one(2)){ w[a][b]=(int)R(0,one(9)?3000:9); out+=w[a][b]; } w[a][a]=out; ttl[a]=out?(double)R(0,left/2/out+1):0; if(out&&one(2)) ttl[a]+=0.25*R(0,3); left-=(i64)(ttl[a]*out); if(left<1) left=1; } for(double d:ttl) s+=fmt("\t%lg",d); for(int a=0;a<4;a++) for(int b=0;b<4;b++) s+=fmt("\t%d",w[a][b]); s+="\n"; }
    if(rich&&n>0){ struct N { int id,depth; set<int> kids; }; vector<N> nd; nd.push_back({0,0,{}}); int k=(int)R(1,12); int id=0; for(int q=0;q<k;q++){ int par=(int)r.below(nd.size()); if(nd[par].depth>=5) continue; int e=(int)r.below(n); if(nd[par].kids.count(e)) continue; nd[par].kids.insert(e); id++; s+=fmt("VOMMNODE\t%d\t%d\t%lld\t%d\n",id,seqs[e],(long long)R(1,one(6)?one(2)?300:200000:30),nd[par].id); int d=nd[par].depth; nd.push_back({id,d+1,{}}); } }
    return s; }
  // ---- damage
  string damage(string s){ auto lines=split(s,'\n'); int k=(int)R(1,4); for(int q=0;q<k;q++){ switch(r.below(20)){
      case 0: if(s.size()) s.resize(r.below(s.size())); lines=split(s,'\n'); break;
      case 1: if(s.size()){ int m=(int)R(1,4); for(int z=0;z<m;z++) s[r.below(s.size())]^=(char)(1<<r.below(8)); } lines=split(s,'\n'); break;
      case 2: { if(lines.size()>2){ size_t a=r.below(lines.size()),b=r.below(lines.size()); std::swap(lines[a],lines[b]); } } break;
      case 3: if(lines.size()>1) lines.insert(lines.begin()+r.below(lines.size()),lines[r.below(lines.size())]); break;
      case 4: if(lines.size()>2) lines.erase(lines.begin()+r.below(lines.size())); break;
      case 5: case 6: case 7: case 8: case 9: case 10: { // change one number
        size_t a=r.below(lines.size()); auto f=split(lines[a],'\t'); if(f.size()>1){ size_t b=1+r.below(f.size()-1); static const vector<string> v={"0","1","-1","2147483647","-2147483648","4294967296","4294967297","9223372036854775807","-9223372036854775808","1e300","nan","inf","-nan","","x","99999999999999999999","3.5","18446744073709551615"}; f[b]=one(3)?I(R(0,60)):r.pick(v); string o; for(size_t i=0;i<f.size();i++) o+=(i?"\t":"")+f[i]; lines[a]=o; } } break;
      case 11: { static const vector<string> v={"PRELOAD\t0.6.4\t5","MAP","EXE\t1","EXEMAP\t1\t1\t1","MARKOV\t1\t1\t0","VOMMNODE\t1\t1\t1\t0","VOMMNODE\t1\t1\t1\t1","VOMMNODE\t7\t1\t1\t6","BADEXE\t5\t-1\tfile:///usr/bin/app0","JUNK\t1","\t\t\t","MAP\t1\t0\t0\t4096\t-1\tfile:///","MAP\t1\t0\t0\t4096\t-1\thttp://x/y","EXE\t1\t0\t0\t-1\tfile:///%00x","\xff\xfe","CRC\t1"}; lines.insert(lines.begin()+r.below(lines.size()+1),r.pick(v)); } break;
      case 12: { size_t a=r.below(lines.size()); lines[a]+=string(R(1,6000),one(2)?'A':'\t'); } break;
      case 13: { string m; int es=0; for(auto&l:lines) if(!l.compare(0,4,"EXE\t")){ es=atoi(l.c_str()+4); break; } m=fmt("MARKOV\t%d\t%d\t0",es,es); for(int i=0;i<4;i++) m+="\t1"; for(int i=0;i<16;i++) m+="\t1"; lines.insert(lines.begin()+lines.size()-1,m); } break;
      case 14: { int es=0; vector<int> all; for(auto&l:lines) if(!l.compare(0,4,"EXE\t")) all.push_back(atoi(l.c_str()+4)); if(all.size()){ es=r.pick(all); int d=one(2)?(int)R(2,40):(int)R(2000,60000); string m; for(int i=1;i<=d;i++) { m+=fmt("VOMMNODE\t%d\t%d\t1\t%d\n",1000+i,r.pick(all),i==1?0:1000+i-1); } m.pop_back(); lines.insert(lines.begin()+lines.size()-1,m); } (void)es; } break;
      case 15: { vector<string> v; for(auto&l:lines) if(!l.compare(0,8,"VOMMNODE")) v.push_back(l); if(v.size()){ auto f=split(r.pick(v),'\t'); if(f.size()>4){ f[1]=I(R(500,900)); lines.insert(lines.begin()+lines.size()-1,f[0]+"\t"+f[1]+"\t"+f[2]+"\t"+f[3]+"\t"+f[4]); lines.insert(lines.begin()+lines.size()-1,"VOMMNODE\t"+I(R(901,999))+"\t"+f[2]+"\t3\t"+f[1]); } } } break;
      case 16: { for(auto&l:lines) if(one(3)&&!l.compare(0,6,"MARKOV")){ auto f=split(l,'\t'); if(f.size()==24){ f[3]=one(2)?"999999999":"-5"; l.clear(); for(size_t i=0;i<f.size();i++) l+=(i?"\t":"")+f[i]; } } } break;
      case 17: { for(auto&l:lines) if(one(2)&&!l.compare(0,4,"EXE\t")){ auto f=split(l,'\t'); if(f.size()>=6){ f[3]=one(2)?"99999999":"-7"; l.clear(); for(size_t i=0;i<f.size();i++) l+=(i?"\t":"")+f[i]; } } } break;
      case 18: { lines[0]=one(3)?"PRELOAD\t0.6.3\t77":one(2)?"PRELOAD\t9.9\t1":fmt("PRELOAD\t0.6.4\t%lld",(long long)R(-10,10)); } break;
      default: { size_t a=r.below(lines.size()); auto f=split(lines[a],'\t'); if(f.size()>1&&one(2)) f.pop_back(); else f.push_back("1"); string o; for(size_t i=0;i<f.size();i++) o+=(i?"\t":"")+f[i]; lines[a]=o; } }
    s.clear(); for(size_t i=0;i<lines.size();i++) s+=(i?"\n":"")+lines[i]; } return s; }
  // ---- common building blocks
  void blind(){ now("rate",{"opendir:proc",I(one(2)?1000000:R(300000,900000))}); one(2)?work((int)R(1,3),1.5):routine((int)R(1,3)); now("rate",{"opendir:proc","0"}); }
  void reload(bool good){ if(good) { GConf o=c; make_conf(); if(prop!="C13"){ c.maxprocs=o.maxprocs?o.maxprocs:c.maxprocs; } c.style=(int)r.below(3); now("conf",{"good",conf_text(c)}); } else { static const vector<string> bad={"[model]\ncycle = x\n","garbage\n","","[model\n","[system]\ndoscan = maybe\n","[model]\ncycle = 5\n[system]\nautosave = 1e9999\n","[system]\nmapprefix = !/\nexeprefix = !/\nprediction_algorithm = Markov\nsortstrategy = first\n"}; string b=r.pick(bad); if(b.empty()) now("confrm"); else now("conf",{"bad",b}); } now("sig",{"1"}); if(!good&&one(2)){ t+=SEC; now("conf",{"good",conf_text(c)}); } }
  void battery(int n){ now("bat",{"0","Discharging\n"}); work(n,0.3); now("bat",{"0",one(2)?"Charging\n":"Full\n"}); }
  void batteries(){ int n=(int)R(2,4); vector<int> b; for(int i=0;i<n;i++) b.push_back((int)R(0,9)); int d=r.pick(b); for(int x:b) now("bat",{I(x),x==d?"Discharging\n":one(3)?"Discharging\n":one(2)?"Full\n":"Unknown\n"}); bool f=!one(3); if(f){ if(one(2)){ now("rate",{one(2)?"open:bat":"read:bat",I(R(200000,700000))}); } else { int k=(int)R(1,3); for(int i=0;i<k;i++) flt(one(2)?"open:bat":"read:bat",R(1,30),one(2)?"EIO":"EACCES"); } } work((int)R(3,9),0.4); if(f) now("rate",{"*","0"}); for(int x:b) now("bat",{I(x),one(2)?"-":"Full\n"}); work((int)R(1,3),0.4); }
  void save_req(){ now("sig",{"12"}); t+=2*SEC; }
};

// ---------------------------------------------------------------- profiles
static void base(Gen&g,int lo,int hi,int wild=0,bool ranges=false,bool state=true){ g.make_conf(); g.make_apps((int)g.R(lo,hi),wild,ranges); if(g.one(g.prop=="C15"?3:10)&&!g.apps.empty()){ const GApp&a=g.r.pick(g.apps); u64 t=0; for(auto&m:a.maps) if(!m.path.empty()&&m.path[0]=='/') t+=m.len; g.c.minsize=(i64)t+(g.one(2)?0:g.one(2)?1:-1); } if(state&&g.one(3)) g.p.set["state"]=g.valid_state((int)g.R(1,hi),!g.one(4)); if(g.one(4)){ static const i64 p0[]={9990,32750,65520,99980,999970,4190000}; g.p.set["pid0"]=g.I(p0[g.r.below(6)]); } if(g.one(12)) g.p.set["nofd"]=g.I(g.R(1,7)); if((g.prop=="C21"||g.prop=="C10")){ if(g.one(3)) g.p.set["blksize"]=g.one(2)?"1024":"16384"; if(g.one(3)) g.p.set["frag"]=g.I(g.R(1,40)); } }
static void crash_trig(Gen&g,int life){ static const vector<string> an={"SAVE","SAVE","SAVE","RENAME","RENAMED","LOAD","PREDICT","SCAN","MAPS","LIFE_START"}; const string&a=g.r.pick(an); bool pw=g.one(2); int occ=a=="SAVE"||a=="RENAME"||a=="RENAMED"?(int)g.R(1,3):a=="LOAD"||a=="LIFE_START"?1:(int)g.R(1,8); int off=g.one(2)?(int)g.R(0,6):(int)g.R(0,60); g.trig(life,a,occ,"seam",off,{pw?"power":"kill"}); }
static void g_c01(Gen&g){ base(g,2,7,10); if(g.c.autosave>400) g.c.autosave=g.R(20,120); g.put_conf(); if(g.one(3)) g.p.set["umask"]=g.one(2)?"0":"77"; int lives=(int)g.R(2,5); if(g.one(4)) g.now("put",{string(STATE)+".tmp",g.one(2)?"":"PRELOAD\t0.6.4\t9\n"});
  for(int i=0;i<lives;i++){ g.start(); int k=(int)g.R(1,4); for(int j=0;j<k;j++){ g.one(2)?g.work((int)g.R(1,6),1.0):g.routine((int)g.R(1,6)); if(!g.one(3)) g.save_req(); } if(i+1<lives||g.one(2)){ if(!g.one(4)) crash_trig(g,i); else if(g.one(2)) g.now(g.one(2)?"kill":"power"); } if(g.one(3)) { g.now("sig",{"12"}); g.t+=g.R(0,3000); g.now(g.one(2)?"kill":"power"); } g.gap(1,4); g.now("kill"); g.gap(2,20); if(g.one(8)) g.now("put",{string(STATE)+".tmp","junk"}); }
  g.start(); g.work((int)g.R(1,3)); g.save_req(); g.stopd(); if(g.one(3)){ static const vector<string> cl={"write:tmp","fsync:tmp","rename:tmp","close:tmp","open:tmp","unlink:tmp"}; static const vector<string> ef={"ENOSPC","EIO","EIO","EIO","EIO","EIO"}; int k=(int)g.r.below(cl.size()); g.flt(cl[k],g.R(1,6),ef[k]); } }
static void g_c02(Gen&g){ base(g,2,9,10); g.c.autosave=g.one(2)?g.R(20,100):3600; g.put_conf(); g.start(); g.work((int)g.R(1,5),1.0); if(!g.one(3)) g.save_req(); g.work((int)g.R(1,4),1.0); int rounds=(int)g.R(1,3);
  for(int i=0;i<rounds;i++){ int how=(int)g.r.below(5); if(how==0){ g.now("cap",{g.I(g.one(2)?0:g.R(1,6000))}); } else if(how<3){ static const vector<string> cl={"write:tmp","write:tmp","fsync:tmp","rename:tmp","close:tmp","open:tmp","unlink:tmp"}; const string&k=g.r.pick(cl); g.now("rate",{k,g.I(g.one(2)?1000000:g.R(100000,900000))}); if(g.one(3)) g.now("rate",{"unlink:tmp","500000"}); } else { static const vector<string> cl={"write:tmp","write:tmp","fsync:tmp","rename:tmp","close:tmp","open:tmp","unlink:tmp"}; const string&k=g.r.pick(cl); g.flt(k,g.R(1,10),k=="write:tmp"?(g.one(2)?"ENOSPC":g.one(2)?"short":g.one(2)?"EINTR":"EIO"):k=="open:tmp"?(g.one(2)?"ENOSPC":"EACCES"):"EIO"); }
    int k=(int)g.R(1,3); for(int j=0;j<k;j++){ g.save_req(); if(g.one(3)) g.work(1); } if(g.one(3)) g.work((int)g.R(1,3)); g.now("cap",{"-1"}); g.now("rate",{"*","0"}); if(g.one(2)) g.save_req(); else if(g.one(3)) g.stopd(),g.start(); else g.work((int)g.R(1,3)); if(g.one(2)){ g.save_req(); } }
  g.save_req(); if(g.one(2)){ g.now("kill"); g.t+=5*SEC; } else g.stopd(); g.start(); g.work(1); g.save_req(); g.stopd(); }
static void g_c03(Gen&g){ g.extra=g.one(3); base(g,2,9,g.one(3)?0:50); if(g.one(3)) g.p.set["state"]=g.valid_state(9,true); g.put_conf(); int lives=(int)g.R(2,4); for(int i=0;i<lives;i++){ g.start(!g.one(3)); int k=(int)g.R(0,3); for(int j=0;j<k;j++) g.one(2)?g.work((int)g.R(1,8),1.0):g.routine((int)g.R(2,8)); if(g.one(6)){ g.t+=g.R(900,1000+100*g.c.cycle)*SEC; g.work((int)g.R(2,5),1.5); } if(g.one(3)) g.save_req(); if(g.one(6)) g.battery((int)g.R(1,6)); if(!k) g.gap(1,3*g.c.cycle); static const int sg[]={15,2,3}; g.stopd(sg[g.r.below(3)]); g.gap(0,30); if(g.one(4)){ for(size_t a=0;a<g.apps.size();a++) if(g.one(4)) g.now(g.one(2)?"stop":"run",{g.I(a)}); } } g.start(); g.gap(1,2*g.c.cycle); g.save_req(); g.stopd(); }
static void g_c04(Gen&g){ base(g,1,8,15,false,false); g.c.autosave=g.one(2)?g.R(20,60):3600; g.put_conf(); string s=g.valid_state((int)g.R(1,8),!g.one(4)); int kind=(int)g.r.below(12); if(kind==0){ s.clear(); int n=(int)g.R(0,400); for(int i=0;i<n;i++) s+=(char)g.r.below(256); } else if(kind==1) s=""; else if(kind<11) s=g.damage(s); else { static const vector<string> e={"EIO","EINTR","short"}; g.flt("read:st",g.R(1,4),g.r.pick(e)); } g.p.set["state"]=s; if(kind==11&&g.one(3)) g.flt("open:st",1,"EACCES"); if(g.one(3)) for(size_t a=0;a<g.apps.size();a++) if(g.one(2)) g.op(0,"run",{g.I(a)}); g.t=SEC/2; g.start(!g.one(4)); g.work((int)g.R(1,4),1.0); g.save_req(); g.routine((int)g.R(2,6)); if(g.one(3)){ g.now("uninstall",{g.r.pick(g.apps).exe}); g.save_req(); g.work(2); } if(g.one(3)) { g.now("sig",{"10"}); g.t+=SEC; } if(g.one(4)) g.reload(true); g.work(2); g.save_req(); g.stopd(); g.start(); g.work(2); g.stopd(); }
static void g_c05(Gen&g){ base(g,2,7); g.put_conf(); int lives=(int)g.R(1,3); for(int i=0;i<lives;i++){ g.start(); int k=(int)g.R(1,4); for(int j=0;j<k;j++){ switch(g.r.below(5)){ case 0: g.one(4)?g.batteries():g.battery((int)g.R(1,9)); break; case 1: if(g.one(5)) g.blind(); else g.routine((int)g.R(2,8)); break; case 2: if(g.one(2)) g.reload(!g.one(3)); else { g.now("wall",{g.I(g.R(-100000,100000)*SEC)}); if(g.one(2)) g.now("suspend",{g.I(g.R(1,100000)*SEC)}); } g.work((int)g.R(2,5)); break; default: g.work((int)g.R(2,9),1.0); } if(g.one(2)) g.save_req(); else g.t+=g.R(0,g.c.cycle*SEC); } if(g.one(5)) g.now("kill"),g.t+=9*SEC; else g.stopd(); } }
static void g_c06(Gen&g){ base(g,2,6); if(g.one(2)) g.c.algo="Markov"; g.put_conf(); int lives=(int)g.R(1,3); for(int i=0;i<lives;i++){ g.start(); int k=(int)g.R(1,4); for(int j=0;j<k;j++){ switch(g.r.below(4)){ case 0: if(g.one(4)) g.blind(); g.routine((int)g.R(4,12)); break; case 1: { // several changes in one cycle
          int n=(int)g.R(2,6); for(int q=0;q<n;q++){ for(size_t a=0;a<g.apps.size();a++) if(g.one(2)) g.now(g.one(2)?"run":"stop",{g.I(a)}); g.t+=g.R(1,2)*g.c.cycle*SEC+g.R(0,SEC); } } break; default: g.work((int)g.R(4,14),1.0+0.3*g.R(0,5)); if(g.one(8)){ g.t+=g.R(900,1000+60*g.c.cycle)*SEC; g.work((int)g.R(2,5),1.5); } } if(g.one(2)) g.save_req(); if(g.one(8)) g.battery((int)g.R(2,5)); } if(g.one(3)) g.reload(!g.one(3)); g.stopd(); } g.start(); g.gap(1,10); g.stopd(); }
static void g_c07(Gen&g){ base(g,2,7); g.c.algo=g.one(2)?"VOMM":"\"VOMM\""; g.put_conf(); int lives=(int)g.R(1,4); for(int i=0;i<lives;i++){ g.start(); int k=(int)g.R(1,3); for(int j=0;j<k;j++){ if(g.one(2)) g.routine((int)g.R(6,20)); else g.work((int)g.R(3,10),1.0); if(g.one(5)) g.blind(); if(g.one(2)) g.save_req(); } if(g.one(5)){ GConf o=g.c; g.c.algo=g.c.algo=="Markov"?"VOMM":"Markov"; g.now("conf",{"good",g.conf_text(g.c)}); g.now("sig",{"1"}); g.work((int)g.R(1,4)); g.c.algo=o.algo; g.now("conf",{"good",g.conf_text(g.c)}); g.now("sig",{"1"}); g.routine((int)g.R(2,6)); } if(g.one(6)){ g.now("uninstall",{g.r.pick(g.apps).exe}); g.routine(3); g.save_req(); g.routine(3); } if(g.one(5)) g.now("kill"),g.t+=SEC; else g.stopd(); } }
static void train(Gen&g,int n){ g.routine(n); }
static void odd_mem(Gen&g){ switch(g.r.below(8)){ case 0: g.now("memraw",{g.one(2)?"":"MemTotal: abc kB\n"}); break; case 1: g.now("mem",{"MemAvailable","-"}); break; case 2: g.now("mem",{"Cached","-","SwapCached",g.I(g.R(0,9000000))}); break; case 3: g.now("mem",{"MemTotal",g.I(g.one(2)?9000000000000ll:4294967296ll),"MemFree",g.I(g.R(0,4000000000ll)),"MemAvailable",g.I(g.one(2)?8000000000000ll:3000000000ll)}); break; case 4: g.now("mem",{"MemFree","0","MemAvailable","0","Cached","0","Buffers","0"}); break; case 5: g.now("mem",{"MemTotal","-"}); break; case 6: g.now("memraw",{"MemFree: 5000 kB\nMemTotal: 100000 kB\nJunkCached: 77777777 kB\n"}); break; default: g.mem_small(); } }
static void g_c08(Gen&g){ g.extra=g.one(4); base(g,4,10,0,g.one(3)); if(g.one(6)) g.p.set["longmem"]=g.I(g.one(3)?g.R(4070,4110):g.R(4110,20000)); static const i64 pc[]={-100,-50,-10,0,10,50,90,100,100,150,-200,1000000,2147483647,-2147483647}; if(!g.one(3)){ g.c.memtotal=pc[g.r.below(14)]; g.c.memfree=pc[g.r.below(14)]; g.c.memcached=pc[g.r.below(14)]; g.c.membuffers=pc[g.r.below(14)]; } g.c.dopredict=true; g.c.doscan=true; if(g.c.minsize>100000) g.c.minsize=1000; if(g.c.maxprocs==0&&g.one(2)) g.c.maxprocs=4; g.put_conf(); g.start(); g.mem_small(); train(g,(int)g.R(6,14)); int k=(int)g.R(2,8); for(int i=0;i<k;i++){ if(g.one(3)) odd_mem(g); else if(g.one(4)) g.mem_noavail(); else g.mem_small(); g.routine((int)g.R(1,4)); if(g.one(5)) g.now("rate",{"read:meminfo","300000"}); if(g.one(5)) g.now("rate",{"*","0"}); if(g.one(6)){ g.reload(true); } } g.stopd(); }
static void g_c09(Gen&g){ g.extra=g.one(4); base(g,3,10,0,g.one(4)); if(g.one(2)) g.p.set["state"]=g.valid_state(10,true); if(g.one(2)) g.c.algo="Markov"; if(g.c.minsize>100000) g.c.minsize=1000; g.c.memfree=g.one(2)?100:g.R(5,100); g.c.sort=g.one(2)?0:g.c.sort; g.c.maxprocs=g.one(3)?0:g.R(1,30); g.put_conf(); g.start(); bool noav=g.one(5); if(g.one(2)) noav?g.mem_noavail():g.mem_small(); train(g,(int)g.R(6,16)); int k=(int)g.R(1,5); for(int i=0;i<k;i++){ g.one(3)?g.work((int)g.R(2,6),1.0):g.routine((int)g.R(2,8)); if(g.one(2)) noav?g.mem_noavail():g.mem_small(); if(g.one(6)) g.reload(true); if(g.one(9)){ g.stopd(); g.start(); } } g.stopd(); }
static void g_c10(Gen&g){ g.extra=g.one(2); base(g,3,9,10,true,true); if(g.c.minsize>100000) g.c.minsize=1000; g.c.memfree=100; g.c.memtotal=g.one(2)?50:0; g.c.sort=g.R(0,3); if(g.one(3)) g.p.set["nora"]=g.I(g.one(2)?1000:300); if(g.one(3)) g.p.set["noblk"]="1"; if(g.one(4)) g.p.set["nofibmap"]="1"; if(g.one(3)) g.p.set["ino64"]="1"; g.put_conf(); g.start(); train(g,(int)g.R(5,14)); int k=(int)g.R(1,4); for(int i=0;i<k;i++){ if(g.one(2)){ static const vector<string> cl={"open:app","readahead","mmap:app","madvise:app","fstat:app","fork"}; const string&q=g.r.pick(cl); g.now("rate",{q,g.I(g.R(50000,400000))}); } if(g.one(4)){ g.now("rm",{g.r.pick(g.libs)}); } g.routine((int)g.R(2,8)); g.now("rate",{"*","0"}); } g.stopd(); }
static void g_c11(Gen&g){ base(g,4,10,0,g.one(2)); if(g.c.minsize>100000) g.c.minsize=1000; g.c.memfree=100; g.c.memtotal=0; static const i64 mp[]={0,1,1,2,3,5,30,30,64,-1}; g.c.maxprocs=mp[g.r.below(10)]; g.put_conf(); if(g.one(3)) g.p.set["sigchld"]="ign"; if(g.one(2)) g.p.set["helper_us"]=g.I(g.one(2)?g.R(1,2000):g.R(1000,900000)); g.start(); train(g,(int)g.R(5,12)); int k=(int)g.R(2,5); for(int i=0;i<k;i++){ static const vector<string> cl={"fork","wait","helper","open:app","readahead","ioprio"}; int m=(int)g.R(1,2); for(int q=0;q<m;q++) g.now("rate",{g.r.pick(cl),g.I(g.R(100000,900000))}); g.routine((int)g.R(2,6)); if(g.one(2)) g.now("rate",{"*","0"}); if(g.one(5)){ GConf o=g.c; g.c.maxprocs=mp[g.r.below(10)]; g.now("conf",{"good",g.conf_text(g.c)}); g.now("sig",{"1"}); } } g.now("rate",{"*","0"}); g.routine(3); g.stopd(); }
static void g_c12(Gen&g){ g.ship_ok=true; g.p.mode="churn"; base(g,2,7); g.c.autosave=g.one(2)?g.R(20,90):3600; g.put_conf(); int lives=(int)g.R(1,3); static const vector<string> an={"LIFE_START","LOAD","SAVE","RELOAD","PREDICT","MAPS","RENAME","SCAN","READLINK","FORK","READAHEAD","IDLE","IDLE"}; static const vector<string> un={"seam","seam","alloc","pc"};
  for(int i=0;i<lives;i++){ g.start(!g.one(3)); int k=(int)g.R(1,4); for(int j=0;j<k;j++){ g.routine((int)g.R(1,5)); int b=g.one(3)?(int)g.R(1,20):(int)g.R(0,2); for(int q=0;q<b;q++){ static const int sg[]={1,12,10,12,1}; g.now("sig",{g.I(sg[g.r.below(5)])}); g.t+=g.one(2)?0:g.R(0,SEC/2); } if(g.one(4)){ g.c.style=(int)g.r.below(3); g.now("conf",{"good",g.conf_text(g.c)}); } }
    int m=(int)g.R(1,4); for(int q=0;q<m;q++){ static const int sg[]={15,2,3,1,12,10,1,12,15,13}; const string&a=g.r.pick(an); const string&u=g.r.pick(un); int off=u=="seam"?(int)g.R(0,40):u=="alloc"?(int)g.R(0,300):(int)g.R(0,4000); int occ=a=="LOAD"||a=="LIFE_START"?1:(int)g.R(1,6); int s=sg[g.r.below(10)]; g.trig(i,a,occ,u,off,{"sig",g.I(s)}); if(g.one(3)) g.trig(i,a,occ,u,off+(int)g.R(0,3),{"sig",g.I(sg[g.r.below(10)])}); }
    static const int ts[]={15,2,3}; g.stopd(ts[g.r.below(3)]); } }
static string weird_conf(Gen&g){ static const vector<string> cy={"0","-1","1","2","3","2147483647","100000","-2147483648","5","20"}; static const vector<string> au={"0","-1","1","2147483647","3600","60"}; static const vector<string> mp={"0","-1","1","2147483647","30","100000"}; static const vector<string> so={"0","1","2","3","4","-1","99"}; static const vector<string> al={"VOMM","Markov","\"Markov\"","markov","","nonsense","XVOMMX"}; static const vector<string> ms={"0","-1","2147483647","-2147483648","1000"}; string s; if(!g.one(8)) { s+="[model]\n"; if(!g.one(3)) s+="cycle = "+g.r.pick(cy)+"\n"; if(g.one(2)) s+="minsize = "+g.r.pick(ms)+"\n"; if(g.one(2)) s+="memtotal = "+g.I(g.R(-300,300))+"\n"; if(g.one(2)) s+="memfree = "+g.I(g.R(-300,300))+"\n"; if(g.one(2)) s+=string("usecorrelation = ")+(g.one(2)?"true":"false")+"\n"; if(g.one(5)) s+="nosuchkey = 3\n"; }
  if(!g.one(8)){ s+="[system]\n"; if(g.one(3)) s+=string("doscan = ")+(g.one(3)?"false":"true")+"\n"; if(g.one(3)) s+=string("dopredict = ")+(g.one(3)?"false":"true")+"\n"; if(!g.one(3)) s+="autosave = "+g.r.pick(au)+"\n"; if(g.one(2)) s+=string(g.one(2)?"maxprocs":"processes")+" = "+g.r.pick(mp)+"\n"; if(g.one(2)) s+="sortstrategy = "+g.r.pick(so)+"\n"; if(g.one(2)) s+="prediction_algorithm = "+g.r.pick(al)+"\n"; if(g.one(3)) s+="mapprefix = "+string(g.one(2)?"/usr/;!/":"!/usr/lib/;")+"\n"; if(g.one(3)) s+="exeprefix = "+string(g.one(2)?"/usr/;!/":"!/usr/bin/app1;/")+"\n"; } if(g.one(6)) s+="[other]\nx = y\n"; return s; }
static void g_c13(Gen&g){ g.ship_ok=true; base(g,3,7); if(g.c.minsize>100000) g.c.minsize=1000; if(g.one(4)) g.c.minsize=g.R(500000,8000000); if(g.one(6)) g.c.dopredict=false; g.put_conf(); g.start(); g.routine((int)g.R(3,8)); int k=(int)g.R(2,7); i64 budget=260; // cycles may become short: limit virtual time
  for(int i=0;i<k;i++){ switch(g.r.below(8)){ case 7: { auto put=[&](i64 m){ g.c.minsize=m; g.now("conf",{"good",g.conf_text(g.c)}); g.now("sig",{"1"}); }; if(g.one(2)) put(g.R(500000,8000000)); for(size_t j=0;j<g.apps.size();j++) if(!g.one(3)) g.now("run",{g.I(j)}); g.t+=g.R(2,4)*g.c.cycle*SEC; put(g.one(2)?0:g.c.minsize/g.R(2,20)); g.t+=g.R(2,4)*g.c.cycle*SEC; g.save_req(); } break; case 0: case 1: g.reload(true); break; case 2: g.reload(false); break; case 3: case 4: { g.now("conf",{"odd",weird_conf(g)}); g.now("sig",{"1"}); g.c.cycle=g.R(4,12); } break; case 5: { static const vector<string> al={"VOMM","Markov"}; g.c.algo=g.r.pick(al); g.now("conf",{"good",g.conf_text(g.c)}); g.now("sig",{"1"}); } break; default: g.now("rate",{"read:conf","500000"}); g.reload(true); g.t+=SEC; g.now("rate",{"*","0"}); } if(g.one(2)){ g.t+=SEC; g.now("sig",{"10"}); } if(g.one(3)){ g.t+=SEC; g.now("sig",{"1"}); } (void)budget; g.routine((int)g.R(2,6)); if(g.one(3)) g.save_req(); }
  g.stopd(); g.start(); g.work(2); g.save_req(); g.stopd(); }
static void g_c14(Gen&g){ base(g,3,8,60,g.one(2)); if(g.c.minsize>100000) g.c.minsize=1000; g.c.memfree=100; for(size_t i=0;i<g.apps.size();i++){ GApp&a=g.apps[i]; switch(g.r.below(9)){ case 0: a.exe="/usr/sbin/daemon"+g.I(i); a.maps[0].path=a.exe; break; case 1: a.exe="/opt/tool"+g.I(i); a.maps[0].path=a.exe; break; case 2: a.exe=a.exe+" (deleted)"; break; case 3: a.exe="/usr/bin/tool"+g.I(i)+".#prelink#.AbCdE"+g.I(i); a.maps[0].path=a.exe; break; case 4: a.exe="/home/user/bin/x"+g.I(i); break; case 5: a.exe=g.one(2)?"usr/bin/rel":"[kthreadd]"; break; case 6: a.exe="/usr/bin/tool"+g.I(i)+".#prelink#.Q"+g.I(i)+" (deleted)"; a.maps[0].path=a.exe; break; default: if(g.one(8)){ a.exe=fmt("/usr/bin/L%d",(int)i)+g.longname((int)g.R(490,1500)); if(g.one(3)&&g.apps.size()>1) a.exe=g.apps[i?i-1:1].exe.substr(0,500)+a.exe; if(a.exe[0]!='/') a.exe="/usr/bin/z"+a.exe; a.maps[0].path=a.exe; } }
    int k=(int)g.R(0,3); static const vector<string> ps={"[vdso]","[anon:x y]","/dev/shm/x (deleted)","/SYSV00000000 (deleted)","anon_inode:[perf]","/usr/lib/old.so (deleted)","/usr/lib/libp.so.#prelink#.Zz","/usr/lib/libq.so.#prelink#.Zz (deleted)","/var/cache/c.dat","/opt/lib/o.so","/tmp/t.map","/lib/ld.so","/libx/y.so","/usr/lib/with space.so","socket:[123]","/memfd:foo (deleted)"}; for(int j=0;j<k;j++){ GMap m; m.path=g.r.pick(ps); m.off=0; m.len=(u64)g.R(1,200)*4096; m.perm="r-xp"; a.maps.push_back(m); } }
  static const vector<string> rules={"/usr/;/lib;/var/cache/;!/","!/usr/lib/lib;/","/usr/;!/","!/","/","!/usr/bin/app1;!/opt;/usr","!/usr/sbin/;!/usr/local/sbin/;/usr/;!/","/opt;!/opt/tool;!/","","!;/usr","!/home/;!/opt/"}; g.c.has_map=!g.one(4); g.c.mapprefix=g.r.pick(rules); g.c.has_exe=!g.one(4); g.c.exeprefix=g.r.pick(rules); g.put_conf(); if(g.one(3)) g.p.set["state"]=g.valid_state(3,true); for(size_t i=0;i<g.apps.size();i++) if(g.one(5)) g.op(0,"run",{g.I(i)}); g.t=SEC/2; g.start(); g.work((int)g.R(3,8),1.5); g.routine((int)g.R(3,9)); g.save_req(); if(g.one(2)){ g.c.mapprefix=g.r.pick(rules); g.c.exeprefix=g.r.pick(rules); g.c.has_map=g.c.has_exe=true; g.now("conf",{"good",g.conf_text(g.c)}); g.now("sig",{"1"}); g.work((int)g.R(3,8),1.5); g.save_req(); } g.stopd(); }
static void g_c15(Gen&g){ bool exact=g.one(3); if(exact&&g.one(3)){ base(g,3,8,10); g.c.minsize=g.R(200000,3000000); for(auto&a:g.apps) if(g.one(6)) a.maps.push_back({(u64)g.R(1<<19,3<<19)*4096,(u64)g.R(0,1<<20)*4096,"r--s","/srv/data/big"+g.I(g.r.below(3))}); g.put_conf(); g.start(); int k=(int)g.R(2,5); for(int i=0;i<k;i++){ g.work((int)g.R(2,5),1.0); int A=(int)g.r.below(g.apps.size()); g.now("run",{g.I(A)}); g.t+=(i64)g.R(1,3)*g.c.cycle*SEC; g.now("grow",{g.I(A),g.I(g.R(10,3000)*4096),g.I(g.R(0,3000)*4096)}); g.t+=g.R(0,g.c.cycle*SEC); if(!g.one(4)) g.save_req(); g.work((int)g.R(2,4),0.2); if(g.one(3)) g.reload(!g.one(3)); } g.save_req(); g.stopd(); g.start(); g.work(2); g.stopd(); return; }
   if(!exact) g.p.mode="churn"; base(g,3,9,10); if(g.c.minsize>500000) g.c.minsize=500000; g.put_conf(); g.start(); int k=(int)g.R(2,5); for(int i=0;i<k;i++){ g.work((int)g.R(2,6),exact?1.0:0.5+g.R(0,5)); if(g.one(2)) g.save_req(); if(g.one(3)){ static const vector<string> cl={"readlink:exe","read:maps","open:maps","opendir:proc","readdir:proc"}; g.now("rate",{g.r.pick(cl),g.I(g.R(20000,300000))}); g.work((int)g.R(1,3),1.5); g.now("rate",{"*","0"}); g.work((int)g.R(2,4),0.1); } }
  if(!exact){ int m=(int)g.R(1,8); for(int i=0;i<m;i++){ static const vector<string> an={"SCAN","READLINK","READLINK","MAPS","MAPS"}; string a=g.r.pick(an); int A=(int)g.r.below(g.apps.size()); vector<string> act; switch(g.r.below(4)){ case 0: act={"stop",g.I(A)}; break; case 1: act={"run",g.I(A)}; break; case 2: act={"exec",g.I(A),g.I(g.r.below(g.apps.size()))}; break; default: act={"reuse",g.I(A),g.I(g.r.below(g.apps.size()))}; } g.trig(-1,a,(int)g.R(1,30),"seam",(int)g.R(0,8),act); } }
  g.work(3,0.1); g.save_req(); g.stopd(); g.start(); g.work(2); g.stopd(); }
static void g_c16(Gen&g){ base(g,3,8,g.one(3)?40:0); if(g.c.minsize>100000) g.c.minsize=1000; if(!g.one(4)) g.c.algo="VOMM"; if(g.one(2)) for(size_t i=0;i<g.apps.size();i++) if(g.one(3)){ GApp&a=g.apps[i]; a.exe="/opt/pkg"+g.I(i)+"/prog"; a.maps[0].path=a.exe; } if(g.one(3)){ g.p.set["state"]=g.valid_state(8,true); for(size_t i=0;i<g.apps.size();i++) if(g.one(2)) g.op(0,"run",{g.I(i)}); g.t=SEC/2; } g.put_conf(); g.start(); if(g.t>SEC/4&&g.one(2)){ for(auto&a:g.apps) if(g.one(3)) g.now("uninstall",{a.exe}); g.t+=g.one(2)?SEC:g.R(0,g.c.cycle)*SEC; g.save_req(); } g.routine((int)g.R(4,10)); int k=(int)g.R(2,6); for(int i=0;i<k;i++){ const GApp&a=g.r.pick(g.apps); switch(g.r.below(6)){ case 0: g.now("todir",{a.exe}); break; case 1: g.now("rate",{"stat:app",g.I(g.R(300000,1000000))}); break; case 2: if(g.one(3)){ g.now("symlink",{"/usr/bin/nowhere",a.exe}); } else if(g.one(2)){ g.now("install",{"/opt/moved/prog",g.I(a.total()+100000)}); g.now("rm",{a.exe}); g.now("symlink",{g.one(4)?"/opt/moved/gone":"/opt/moved/prog",a.exe}); } else { g.now("mv",{a.exe,a.exe+".bak"}); } break; default: g.now("uninstall",{a.exe}); if(a.exe.compare(0,8,"/opt/pkg")==0&&g.one(2)) g.now("put",{a.exe.substr(0,a.exe.rfind('/')),"now a file\n"}); } g.t+=g.R(0,2*g.c.cycle*SEC); if(g.one(3)) g.routine((int)g.R(1,3)); g.save_req(); if(g.one(2)) g.now("rate",{"*","0"}); if(g.one(2)) g.now("install",{a.exe,g.I(a.total()+100000)}); g.one(2)?g.routine((int)g.R(1,5)):g.work((int)g.R(1,4),1.0); g.save_req(); } g.now("rate",{"*","0"}); g.stopd(); g.start(); g.routine(3); g.save_req(); g.stopd(); }
static void g_c17(Gen&g){ base(g,2,6); g.c.autosave=g.R(30,300); if(g.one(6)) g.c.cycle=g.R(1,3); g.put_conf(); g.start(); int k=(int)g.R(3,8); for(int i=0;i<k;i++){ switch(g.r.below(9)){ case 0: g.battery((int)g.R(2,12)); break; case 1: g.now("wall",{g.I(g.R(-1000000,1000000)*SEC)}); break; case 2: g.now("suspend",{g.I(g.R(1,100000)*SEC)}); break; case 3: g.now("delay",{g.I(g.R(1000,30000))}); g.work(2); g.now("delay",{"0"}); break; case 4: { static const vector<string> cl={"opendir:proc","readdir:proc","fork","write:tmp","read:meminfo","read:bat","poll","open:maps","write:log","rename:tmp","open:bat"}; g.now("rate",{g.r.pick(cl),g.I(g.R(100000,1000000))}); g.work((int)g.R(2,6)); g.now("rate",{"*","0"}); } break; case 5: if(g.one(2)) g.reload(!g.one(3)); else g.batteries(); break; case 6: if(g.one(2)){ g.batteries(); break; } else { int b=(int)g.R(0,3); g.now("bat",{g.I(b),g.one(2)?"Discharging\n":g.one(2)?"Not charging\n":"Unknown\n"}); g.work((int)g.R(1,6)); g.now("bat",{g.I(b),"-"}); } break; default: g.routine((int)g.R(2,8)); } g.work((int)g.R(1,6)); } g.stopd(); }
static void g_c18(Gen&g){ base(g,2,5); g.c.cycle=g.R(4,8); if(g.c.minsize>100000) g.c.minsize=1000; g.c.autosave=g.one(2)?g.R(8,40):3600; g.c.memfree=100; if(g.one(2)) g.c.maxprocs=g.R(0,3); if(g.one(4)){ g.p.set["nora"]=g.one(2)?"1000":"500"; if(!g.one(3)) g.c.maxprocs=g.R(-1,0); } int mode=(int)g.r.below(10); if((mode==1||mode==2||mode==6)&&!g.one(4)){ g.c.has_map=g.c.has_exe=true; g.c.mapprefix="/usr/;/lib;/var/cache/;!/"; g.c.exeprefix="!/usr/sbin/;!/usr/local/sbin/;/usr/;!/"; } if(g.one(4)){ GApp a; a.exe="/usr/bin/anon"; a.maps.push_back({(u64)g.R(1,400)*4096,0,"rw-p",g.one(2)?"":"[heap]"}); if(g.one(3)) a.maps.push_back({(u64)g.R(1,400)*4096,0,"rw-p","/usr/lib/old.so (deleted)"}); g.apps.push_back(a); g.now("run",{g.I((int)g.apps.size()-1)}); } g.put_conf(); g.start(); g.routine((int)g.R(4,8)); if(g.one(2)) for(size_t i=0;i<g.apps.size();i++) g.now("run",{g.I(i)}); int n=(int)g.R(30,70); if(g.one(3)){ bool d=g.one(3); g.now("bat",{g.I(g.R(0,9)),d?"Discharging\n":g.one(2)?"Charging\n":"Full\n"}); if(d) n=(int)g.R(80,130); } i64 c=g.c.cycle*SEC; static const vector<string> cl={"open:tmp","write:tmp","rename:tmp","fsync:tmp","read:meminfo","open:maps","read:maps","open:app","readahead","fork","mmap:app","madvise:app","fstat:app","readdir:proc","read:bat","open:log","open:conf","read:conf","readlink:exe"}; vector<string> used; if(mode>=4&&mode<8){ int m=(int)g.R(1,3); for(int q=0;q<m;q++){ used.push_back(g.r.pick(cl)); g.now("rate",{used.back(),g.I(g.one(2)?1000000:g.R(300000,900000))}); } } int A=(int)g.r.below(g.apps.size());
  g.t+=2*c; string bad="[model]\ncycle = x\n"; if(mode==2&&g.one(2)) bad="[system]\nmapprefix = /usr/;/lib;!/\nexeprefix = /usr/;!/\nprediction_algorithm = Markov\nmaxprocs = x\n"; string good=g.conf_text(g.c); for(int i=0;i<n;i++){ i64 x=g.t; if(mode==0||mode==5) g.op(x,"sig",{"12"}); if(mode==1||mode==6){ g.op(x,"sig",{"1"}); } if(mode==2){ g.op(x,"conf",{"x",bad}); g.op(x,"sig",{"1"}); } if(mode==3) g.op(x,"sig",{"10"}); if(mode==7){ g.op(x,"run",{g.I(A)}); g.op(x+1,"stop",{g.I(A)}); }
    if(mode>=8){ const GApp&a=g.apps[A]; int cy=mode==8?2:(int)g.R(1,3); g.op(x,"install",{a.exe,g.I(a.total()+100000)}); g.op(x,"run",{g.I(A)}); g.t+=cy*c; g.op(g.t,"stop",{g.I(A)}); g.t+=2*c; g.op(g.t,"uninstall",{a.exe}); g.op(g.t,"sig",{"12"}); } g.t+=c; } g.now("rate",{"*","0"}); g.now("conf",{"good",good}); g.now("sig",{"1"}); g.work(3); g.stopd(); }
static void g_c19(Gen&g){ base(g,3,7); if(g.c.minsize>100000) g.c.minsize=1000; g.c.memfree=100; g.put_conf(); string T=string(STATE)+".tmp"; if(g.one(3)) g.p.set["umask"]=g.one(2)?"0":"77"; bool fg=!g.one(3); auto plant=[&](){ switch(g.r.below(6)){ case 0: g.now("symlink",{"/home/user/victim",T}); break; case 1: g.now("symlink",{"/etc/passwd",T}); break; case 2: g.now("put",{T,"planted\n","666"}); break; case 3: g.now("todir",{T}); break; case 4: g.now("symlink",{"nowhere/at/all",T}); break; default: g.now("symlink",{STATE,T}); } }; g.p.set["file0"]="/home/user/victim\nprecious data\n"; g.p.set["file1"]="/etc/passwd\nroot:x:0:0\n"; if(g.one(2)) plant(); if(g.one(6)) g.now("symlink",{"/srv/data/real.state",STATE}); g.start(fg); g.routine((int)g.R(3,8)); int k=(int)g.R(1,4); for(int i=0;i<k;i++){ if(g.one(2)) plant(); if(g.one(3)){ static const vector<string> cl={"open:tmp","write:tmp","rename:tmp","unlink:tmp","open:app","readahead","fork"}; g.now("rate",{g.r.pick(cl),g.I(g.R(300000,1000000))}); } g.save_req(); g.now("rate",{"*","0"}); if(g.one(3)) g.now("sig",{"1"}); if(g.one(2)) g.now("rm",{T}); g.routine((int)g.R(1,4)); if(g.one(3)) g.now("put",{T,"again\n"}); g.save_req(); } if(g.one(4)) g.trig(0,"SAVE",(int)g.R(1,3),"seam",(int)g.R(0,10),{"symlink","/etc/passwd",T}); g.stopd(); g.start(); g.work(1); g.stopd(); }
static void g_c20(Gen&g){ g.ship_ok=true; base(g,2,5); g.put_conf(); vector<string> a; if(!g.one(3)) a.push_back("-f"); a.push_back("-V"); a.push_back(g.I(g.R(3,9))); if(g.one(4)){ a.push_back("-l"); a.push_back("/srv/data/my.log"); } string lp=a.back().compare(0,1,"/")?LOGP:a.back(); g.startv(a); g.work((int)g.R(1,4)); int k=(int)g.R(2,6); for(int i=0;i<k;i++){ switch(g.r.below(9)){ case 8: break; case 0: case 1: g.now("mv",{lp,lp+"."+g.I(i)}); break; case 2: g.now("rm",{lp}); break; case 3: g.now("mv",{lp,lp+"."+g.I(i)}); g.now("put",{lp,"fresh\n"}); break; case 4: g.now("rate",{"open:log","1000000"}); break; case 5: g.now("rate",{"write:log",g.I(g.R(100000,1000000))}); break; case 6: g.now("rate",{g.one(2)?"dup2":"fsync:log","1000000"}); break; default: if(g.one(2)){ g.now("rm",{lp}); g.now("todir",{lp}); } else g.now("cap",{"0"}); } g.now("sig",{"1"}); g.t+=g.R(0,3*SEC); g.now("sig",{g.one(2)?"12":"10"}); g.work((int)g.R(1,3)); g.now("rate",{"*","0"}); g.now("cap",{"-1"}); if(g.one(2)){ g.now("rm",{lp}); g.now("sig",{"1"}); g.t+=SEC; g.now("sig",{"10"}); g.t+=SEC; } } g.work(1); g.stopd(); }
static void g_c21(Gen&g){ g.extra=g.one(2); base(g,4,10,g.one(4)?30:0,g.one(2)); if(g.one(2)) g.p.set["state"]=g.valid_state(10,true); if(g.c.minsize>100000) g.c.minsize=1000; g.c.memfree=100; g.c.memtotal=0; g.c.sort=g.R(0,3); if(g.one(3)) g.p.set["noblk"]="1"; if(g.one(4)) g.p.set["nofibmap"]="1"; if(g.one(3)) g.p.set["ino64"]="1"; g.put_conf(); g.start(!g.one(4)); train(g,(int)g.R(5,12)); int k=(int)g.R(1,5); for(int i=0;i<k;i++){ if(g.one(3)){ static const vector<string> cl={"ioprio","fibmap","fstat:app","nice"}; g.now("rate",{g.r.pick(cl),g.I(g.R(100000,1000000))}); } if(g.one(3)){ g.c.sort=g.R(0,3); g.now("conf",{"good",g.conf_text(g.c)}); g.now("sig",{"1"}); } g.routine((int)g.R(2,6)); g.now("rate",{"*","0"}); } g.stopd(); }
static void g_c22(Gen&g){ g.ship_ok=true; base(g,2,6); if(g.one(4)) g.c.doscan=false; if(g.one(4)) g.c.dopredict=false; if(g.one(3)&&!g.p.set.count("state")) g.p.set["state"]=g.valid_state(5,true); bool badconf=g.one(8), noconf=g.one(8); g.put_conf(); if(badconf){ g.p.set["conf"]="[model]\ncycle = x\n"; g.p.set.erase("shipped"); } if(noconf) g.p.set.erase("conf"); static const vector<string> cw={"/","/root","/home/user","/srv/data","/tmp"}; g.p.set["cwd"]=g.r.pick(cw); string cwd=g.p.set["cwd"]; string ct=noconf||badconf?"":g.p.set["conf"]; int n=(int)g.R(1,3);
  auto place=[&](const string&base){ switch(g.r.below(4)){ case 0: return base; case 1: return "./"+base; case 2: return "../tmp/"+base; default: return "/srv/data/"+base; } }; int fi=0;
  for(int i=0;i<n;i++){ vector<string> a; if(g.one(2)) a.push_back(g.one(2)?"-f":"--foreground"); auto opt=[&](const char*s,const char*l,const string&v){ if(v.empty()){ if(g.one(2)) a.push_back(string(l)+"="); else { a.push_back(g.one(2)?l:s); a.push_back("<empty>"); } return; } switch(g.r.below(4)){ case 0: a.push_back(l); a.push_back(v); break; case 1: a.push_back(string(l)+"="+v); break; case 2: if(v[0]!='='){ a.push_back(string(s)+v); break; } [[fallthrough]]; default: a.push_back(s); a.push_back(v); } }; if(g.one(12)) a.push_back(g.one(2)?"-d":"--debug"); if(g.one(4)) opt("-n","--nice",g.I(g.R(-2,21))); if(g.one(3)) opt("-V","--verbose",g.I(g.R(0,9)));
    if(g.one(2)&&!ct.empty()){ string q=place("my.conf"); string abs=q[0]=='/'?q:cwd=="/"?"/"+q:cwd+"/"+q; opt("-c","--conffile",q); g.p.set["file"+g.I(fi++)]=normpath("/",abs)+"\n"+ct; } if(g.one(2)){ string q=place("my.state"); if(g.one(3)){ string abs=q[0]=='/'?q:cwd=="/"?"/"+q:cwd+"/"+q; g.p.set["file"+g.I(fi++)]=normpath("/",abs)+"\n"+g.valid_state(4,true); } opt("-s","--statefile",q); } if(g.one(2)) opt("-l","--logfile",g.one(8)?"/no/such/dir/x.log":place("my.log")); if(g.one(8)) opt("-s","--statefile",""); if(g.one(8)) opt("-l","--logfile",""); if(g.one(10)) opt("-c","--conffile",""); if(g.one(14)){ static const vector<string> b={"-Z","--nosuch","-h","-v","-c","--version","--help","-H"}; a.push_back(g.r.pick(b)); }
    if(g.one(4)){ static const vector<string> cl={"fork","open:log","open:conf","read:conf","open:st","open:null","nice","chdir","dup2"}; static const vector<string> ef={"EAGAIN","EACCES","EACCES","EIO","EACCES","EACCES","EPERM","EACCES","EIO"}; size_t k=g.r.below(cl.size()); g.flt(cl[k],1,ef[k]); }
    g.startv(a); g.work((int)g.R(1,4),1.0); if(g.one(2)) g.save_req(); if(g.one(3)){ g.now("sig",{"1"}); g.work(2); } if(!g.one(3)) g.routine((int)g.R(1,5)); g.stopd(); } }
static void g_c23(Gen&g){ g.p.mode="direct"; g.c=GConf(); if(g.one(3)) g.p.set["noboottime"]="1"; g.startv({"-f"}); int n=(int)g.R(5,60); for(int i=0;i<n;i++){ g.t+=g.one(3)?g.R(0,2000):g.R(0,50*SEC); switch(g.r.below(8)){ case 0: g.now("suspend",{g.I((g.one(3)?g.R(1,20000000):g.R(1,500000))*SEC+g.R(0,SEC))}); break; case 1: g.now("wall",{g.I(g.R(-500000,500000)*SEC)}); break; case 2: if(g.one(4)) g.t+=g.R(1,g.one(2)?5000000:100000)*SEC; g.now("rate",{"clock",g.I(g.one(2)?0:g.R(100000,1000000))}); break; case 3: g.now("call",{"sup"}); break; case 4: case 5: g.now("call",{"sec"}); break; default: g.now("call",{"ms"}); } } if(g.one(3)) g.flt("clock",g.R(1,5),"EINVAL"); g.t+=SEC; }
static void g_c25(Gen&g){ g.ship_ok=true; base(g,3,8,g.one(4)?20:0,g.one(3)); if(g.one(2)&&g.c.minsize>100000) g.c.minsize=g.R(0,300000)*4; g.put_conf(); bool few=g.one(2); if(g.one(2)) for(size_t i=0;i<g.apps.size();i++) if(g.one(2)) g.now("run",{g.I(i),g.I(g.R(1,4))}); g.start(!g.one(4)); int lives=(int)g.R(1,3);
  for(int q=0;q<lives;q++){ int k=(int)g.R(3,9); for(int i=0;i<k;i++){ switch(g.r.below(few?6:12)){ case 0: case 1: g.routine((int)g.R(1,4)); break; case 2: g.work((int)g.R(1,4),1.0); break; case 3: g.t+=g.R(0,2*g.c.cycle)*SEC; break; case 4: g.save_req(); break; case 5: g.work(1,2.0,4); break; case 6: if(g.one(3)) g.blind(); else g.battery((int)g.R(1,5)); break; case 7: g.reload(true); break; case 8: g.reload(false); break; case 9: { const GApp&a=g.r.pick(g.apps); g.now("uninstall",{a.exe}); g.save_req(); } break; case 10: { g.now("rate",{"write:log",g.I(g.R(100000,900000))}); g.now("sig",{"10"}); g.work((int)g.R(1,2)); g.now("rate",{"write:log","0"}); } break; default: g.now("sig",{"10"}); g.now("sig",{g.one(2)?"10":"12"}); }
      int b=g.one(4)?(int)g.R(2,6):1; for(int z=0;z<b;z++){ g.now("sig",{"10"}); g.t+=g.one(3)?0:g.one(2)?g.R(0,SEC):g.R(0,g.c.cycle)*SEC; } if(g.one(4)) g.now("sig",{"12"}); }
    if(g.one(3)) g.t+=g.R(0,g.c.cycle)*SEC; g.stopd(); if(q+1<lives){ if(g.one(2)) for(size_t i=0;i<g.apps.size();i++) if(g.one(3)) g.now("run",{g.I(i),g.I(g.R(1,4))}); g.start(!g.one(4)); if(g.one(2)) g.now("sig",{"10"}); g.t+=g.R(1,4)*SEC; } }
  if(g.alive) g.stopd(); if(g.one(3)){ int m=(int)g.R(1,6); static const vector<string> an={"LIFE_START","LOAD","SAVE","RELOAD","PREDICT","MAPS","RENAME","SCAN","READLINK","FORK","READAHEAD","IDLE"}; for(int i=0;i<m;i++){ const string&a=g.r.pick(an); bool once=a=="LOAD"||a=="LIFE_START"; g.trig((int)g.R(0,lives-1),a,once?1:(int)g.R(1,8),g.one(3)?"alloc":"seam",(int)g.R(0,40),{"sig","10"}); } } }
static void g_mixed(Gen&g){ base(g,3,8,20,g.one(3)); if(g.c.minsize>100000) g.c.minsize=1000; g.put_conf(); int lives=(int)g.R(1,3); for(int i=0;i<lives;i++){ g.start(!g.one(4)); int k=(int)g.R(2,6); for(int j=0;j<k;j++){ switch(g.r.below(9)){ case 0: g.battery((int)g.R(1,5)); break; case 1: g.reload(!g.one(3)); break; case 2: { static const vector<string> cl={"write:tmp","rename:tmp","open:app","readahead","fork","wait","ioprio","fibmap","write:log","open:maps","stat:app","fsync:tmp"}; g.now("rate",{g.r.pick(cl),g.I(g.R(50000,600000))}); g.routine((int)g.R(1,4)); g.save_req(); g.now("rate",{"*","0"}); } break; case 3: g.now("uninstall",{g.r.pick(g.apps).exe}); break; case 4: g.save_req(); break; case 5: g.mem_small(); break; case 6: g.now("wall",{g.I(g.R(-9999,9999)*SEC)}); break; default:; } g.one(2)?g.routine((int)g.R(2,7)):g.work((int)g.R(2,6),1.0); } if(g.one(4)){ crash_trig(g,i); } if(g.one(4)) g.now(g.one(2)?"kill":"power"),g.t+=9*SEC; else g.stopd(); } g.start(); g.work(2); g.save_req(); g.stopd(); }

bool plan_generate(const string&prop,u64 seed,Plan&p,int variant){ p=Plan(); p.prop=prop; p.seed=seed; (void)variant; Gen g(seed,p,prop); typedef void(*F)(Gen&); static const F f[]={g_c01,g_c02,g_c03,g_c04,g_c05,g_c06,g_c07,g_c08,g_c09,g_c10,g_c11,g_c12,g_c13,g_c14,g_c15,g_c16,g_c17,g_c18,g_c19,g_c20,g_c21,g_c22,g_c23,nullptr,g_c25};
  if(prop.size()!=3||prop[0]!='C') return false; int n=atoi(prop.c_str()+1); if(n<1||n>25||!f[n-1]) return false; static const set<int> pure={4,12,14,15,18,22,23}; if(!pure.count(n)&&g.one(9)) g_mixed(g); else f[n-1](g); g.finish(); return true; }
