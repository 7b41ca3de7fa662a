// What the simulator tells the property oracles.
#pragma once
#include "world.h"
void orc_life_start(); void orc_life_end();
void orc_load_bytes(bool opened,const string&bytes,const string&err);
void orc_scan_begin(); void orc_scan_end(); void orc_scan_failed(); void orc_scan_cut();
void orc_proc_entry(int pid,const string&exe,const string&res);   // link target as returned
void orc_maps_open(int pid,int mm,const string&err); void orc_maps_read_fault();
void orc_meminfo(const string&text,const string&which); void orc_battery_probe(const string&path,const string&text,bool ok);
void orc_save_open(bool ok,const string&err); void orc_tmp_stuck(); void orc_state_renamed(const string&content,const string&from); void orc_save_step(const string&what,const string&err);
void orc_stat(const string&path,int err,bool regular);
void orc_req(const Req&r); void orc_ioprio(int v,int err); void orc_idle(i64 timeout_us); void orc_poll_return();
void orc_fork(int pid,bool ok,const string&err); void orc_kid_reaped(int pid); void orc_helper_call(const string&what,const string&path);
void orc_mod(const string&kind,const string&path,int flags,u64 ino); void orc_open(const string&path,int flags,int res);
void orc_conf_read(bool ok,const string&text); void orc_signal(int sig,bool handled); void orc_log(u64 ino,const string&text,bool lost);
void orc_kill_other(int pid,int sig); void orc_handler_done(int sig);
i64 orc_defer_until(); void orc_after_op(const Op&op); void orc_run_end(); void orc_init(); void orc_power(bool power);
void orc_exec(const string&path); void orc_fault(const string&cls,const string&eff);
bool direct_call_mode(); void direct_main();

void orc_conf_written(const string&how,const string&text); bool kind_applies(const string&kind,const string&owner,const string&prop);
extern int pa_nice, pa_verb; extern bool pa_help; void parse_args(const vector<string>&a,string&conf,string&state,string&log,bool&fg,bool&bad); void init_world(); void alloc_init();
