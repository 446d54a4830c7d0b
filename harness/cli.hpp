// cli.hpp - running the real binaries
#pragma once
#include "vh.h"
#include "sem.hpp"
#include <spawn.h>
#include <poll.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/resource.h>
extern char **environ;
struct Res { string out; int status=0; bool timeout=false; bool crashed() const { return WIFSIGNALED(status); } int code() const { return WIFEXITED(status)?WEXITSTATUS(status):-1; } };
static string g_scratch;
static inline vector<string> splitWs(const string&s){ vector<string> v; string c; for(char ch:s){ if(ch==' '){ if(!c.empty()) v.push_back(c); c.clear(); } else c+=ch; } if(!c.empty()) v.push_back(c); return v; }
static inline Res runProg(const vector<string>&args,double tmo=30,bool mergeErr=false,const char*stdinFile="/dev/null"){
  Res r; int pfd[2]; if(pipe2(pfd,O_CLOEXEC)) { perror("pipe"); abort(); }
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa,0,stdinFile,O_RDONLY,0);
  posix_spawn_file_actions_adddup2(&fa,pfd[1],1); if(mergeErr) posix_spawn_file_actions_adddup2(&fa,pfd[1],2); else posix_spawn_file_actions_addopen(&fa,2,"/dev/null",O_WRONLY,0);
  posix_spawnattr_t at; posix_spawnattr_init(&at); sigset_t ds; sigfillset(&ds); posix_spawnattr_setsigdefault(&at,&ds); posix_spawnattr_setflags(&at,POSIX_SPAWN_SETSIGDEF);
  vector<char*> av; for(auto&a:args) av.push_back((char*)a.c_str()); av.push_back(nullptr); pid_t pid;
  int e=posix_spawn(&pid,args[0].c_str(),&fa,&at,av.data(),environ); posix_spawn_file_actions_destroy(&fa); posix_spawnattr_destroy(&at); close(pfd[1]);
  if(e){ fprintf(stderr,"spawn %s failed\n",args[0].c_str()); abort(); }
  double end=vh_now()+tmo; char buf[65536];
  while(1){ double left=end-vh_now(); if(left<=0){ r.timeout=true; kill(pid,SIGKILL); break; } struct pollfd pf={pfd[0],POLLIN,0}; vh_tick++; int k=poll(&pf,1,(int)std::min(left*1000+1,500.0)); if(k<=0) continue;
    ssize_t n=read(pfd[0],buf,sizeof buf); if(n<=0){ if(n<0&&errno==EINTR) continue; break; } r.out.append(buf,n); if(r.out.size()>(64u<<20)){ r.timeout=true; kill(pid,SIGKILL); break; } }
  close(pfd[0]); while(waitpid(pid,&r.status,0)<0&&errno==EINTR); return r; }
static inline void writeFile(const string&p,const string&s){ FILE*f=fopen(p.c_str(),"w"); if(!f){ perror(p.c_str()); abort(); } fwrite(s.data(),1,s.size(),f); fclose(f); }
static inline string readFile(const string&p){ FILE*f=fopen(p.c_str(),"r"); string s; if(!f) return s; char b[65536]; size_t n; while((n=fread(b,1,sizeof b,f))>0) s.append(b,n); fclose(f); return s; }
static inline string szs(const string&out){ size_t p=out.find("SZS status "); if(p==string::npos) return ""; p+=11; size_t e=p; while(e<out.size()&&isalnum((unsigned char)out[e])) e++; return out.substr(p,e-p); }
static inline string szsLast(const string&out){ size_t p=out.rfind("SZS status "); if(p==string::npos) return ""; p+=11; size_t e=p; while(e<out.size()&&isalnum((unsigned char)out[e])) e++; return out.substr(p,e-p); }
static inline void scratchInit(){ const char*s=vh_arg("--scratch"); g_scratch=s?s:"/tmp"; g_scratch+="/w"+std::to_string(getpid()); mkdir(g_scratch.c_str(),0700); }
static inline void scratchDone(){ string c="/bin/rm"; runProg({c,"-rf",g_scratch}); }
// first-order problem text from clause strings
struct Pool { const char*name; vector<const char*> cl; bool epr; };
