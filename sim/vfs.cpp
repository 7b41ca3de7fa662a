// Simulated file system with a durability model: file data reaches the disk at fsync or write-back, name changes
// in order at a journal commit (every 5 s, or forced by any fsync). Power loss keeps a prefix of the pending name
// changes and any subset of the unsynchronised data.
#include "world.h"
#include <string.h>
string dirname_of(const string&p){ size_t k=p.rfind('/'); if(k==string::npos) return "."; return k?p.substr(0,k):"/"; }
string normpath(const string&cwd,const string&p){ string s=p; if(s.empty()) return s; if(s[0]!='/') s=cwd+"/"+s; vector<string> out; size_t i=0; 
  while(i<s.size()){ while(i<s.size()&&s[i]=='/') i++; size_t j=i; while(j<s.size()&&s[j]!='/') j++; string c=s.substr(i,j-i); i=j; if(c.empty()||c==".") continue; if(c==".."){ if(!out.empty()) out.pop_back(); continue; } out.push_back(c);} 
  string r; for(auto&c:out) r+="/"+c; return r.empty()?"/":r; }
Inode* Fs::get(const string&p,bool follow,string*real){ string q=p; for(int d=0;d<8;d++){ auto i=ns.find(q); if(i==ns.end()){ if(real)*real=q; return nullptr; } Inode&n=in[i->second]; if(n.type=='l'&&follow){ q=normpath(dirname_of(q),n.link); continue; } if(real)*real=q; return &n; } return nullptr; }
u64 Fs::create(const string&p,char type,const string&data,u32 mode,bool durable){ u64 id=next++; Inode&n=in[id]; n.ino=id; n.type=type; n.mode=mode; n.nlink=1; n.data=data; n.size=data.size(); n.mtime=W?W->now:0; ns[p]=id; if(durable){ n.dur=data; dns[p]=id; } else journal.push_back({'c',p,"",id,W->now}); return id; }
void Fs::mkdirs(const string&p){ if(p=="/"||p.empty()){ if(!ns.count("/")) create("/",'d',"",0755,true); return; } if(ns.count(p)) return; mkdirs(dirname_of(p)); create(p,'d',"",0755,true); }
void Fs::put(const string&p,const string&data,u32 mode){ mkdirs(dirname_of(p)); auto i=ns.find(p); if(i!=ns.end()){ ns.erase(i); } dns.erase(p); create(p,'f',data,mode,true); }
void Fs::remove(const string&p,bool durable){ ns.erase(p); if(durable) dns.erase(p); else journal.push_back({'u',p,"",0,W->now}); }
void Fs::wr(Inode&n,i64 off,const char*b,size_t k,i64 now){ if((i64)n.data.size()<off) n.data.resize(off,0); if(n.data.size()<off+k) n.data.resize(off+k); memcpy(&n.data[off],b,k); n.size=n.data.size(); n.un.push_back({off,string(b,k),-1}); if(n.dirty_since<0) n.dirty_since=now; n.mtime=now; n.nwrites++; }
void Fs::trunc(Inode&n,i64 k,i64 now){ n.data.resize(k,0); n.size=k; n.un.push_back({0,"",k}); if(n.dirty_since<0) n.dirty_since=now; n.mtime=now; n.nwrites++; }
void Fs::rename(const string&a,const string&b,i64 now){ u64 i=ns[a]; ns.erase(a); ns[b]=i; journal.push_back({'r',a,b,i,now}); }
void Fs::unlink(const string&a,i64 now){ u64 i=ns[a]; ns.erase(a); journal.push_back({'u',a,"",i,now}); }
void Fs::commit(size_t k){ for(size_t j=0;j<k&&j<journal.size();j++){ auto&m=journal[j]; if(m.k=='c') dns[m.a]=m.ino; else if(m.k=='r'){ dns.erase(m.a); dns[m.b]=m.ino; } else dns.erase(m.a); } journal.erase(journal.begin(),journal.begin()+(k<journal.size()?k:journal.size())); }
void Fs::sync_inode(Inode&n){ n.dur=n.data; n.un.clear(); n.dirty_since=-1; commit_all(); }
void Fs::background(i64 now){ size_t k=0; while(k<journal.size()&&journal[k].t+5000000<=now) k++; if(k) commit(k); for(auto&i:in){ Inode&n=i.second; if(n.dirty_since>=0&&n.dirty_since+30000000<=now){ n.dur=n.data; n.un.clear(); n.dirty_since=-1; } } }
static void apply(string&d,const WriteRec&w,size_t n){ if(w.trunc>=0){ d.resize(w.trunc,0); return; } if((i64)d.size()<w.off) d.resize(w.off,0); if(d.size()<w.off+n) d.resize(w.off+n); memcpy(&d[w.off],w.data.data(),n); }
void Fs::power_loss(Rng&r){
  size_t k = r.chance(0.35)?journal.size(): r.chance(0.35)?0: r.below(journal.size()+1); commit(k); journal.clear(); ns=dns;
  int how=(int)r.below(3);  // unsynchronised data: none, a torn prefix, or a subset with the later writes possibly on disk without the earlier
  for(auto&i:in){ Inode&n=i.second; if(n.big||n.type!='f') continue; string d=n.dur; if(!n.un.empty()&&how){ size_t m=how==1? r.below(n.un.size()+1): n.un.size(); for(size_t j=0;j<m;j++){ if(how==2&&r.chance(0.5)) continue; size_t len=n.un[j].data.size(); if(j+1==m&&r.chance(0.5)) len=r.below(len+1); apply(d,n.un[j],len);} }
    n.data=n.dur=d; n.size=d.size(); n.un.clear(); n.dirty_since=-1; }
  stat_inc("fault.power_loss"); }
void Fs::gc(){}
