// Worker: generates seeded cases, runs each in a forked child under the simulator, collects coverage.
#include <sys/personality.h>
#include <unistd.h>
#include "common.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <sys/time.h>
#include <unordered_set>
#include <fstream>
using namespace sim;
static double now() { timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }
static string family_of(const string& p) { if (p == "C10" || p == "C17" || p == "C18" || p == "C19" || p == "C20" || p == "C27") return "container"; if (p == "C21" || p == "C22") return "misc"; if (p == "C23") return "jni"; if (p == "C26") return "py"; if (p == "C28") return "parts"; return "cluster"; }
static string generate(const string& prop, uint64_t seed, long i) {
  uint64_t h = 1469598103934665603ull; for (char c : prop + "/" VARIANT) { h ^= (unsigned char)c; h *= 1099511628211ull; }
  Rng r(mix(mix(seed, h), (uint64_t)i)); string f = family_of(prop);
  if (f == "cluster") return gen_cluster(prop, r, VARIANT, i);
  if (f == "container") return gen_container(prop, r, VARIANT, i);
  if (f == "misc") return gen_misc(prop, r, VARIANT, i);
  if (f == "parts") return gen_parts(prop, r, VARIANT, i);
#ifdef WITH_JAVA
  if (f == "jni") return gen_jni(prop, r, VARIANT, i);
#endif
#ifdef WITH_PYTHON
  if (f == "py") return gen_py(prop, r, VARIANT, i);
#endif
  return "";
}
static void run_case(const string& text) { // in the child
  Case c = parse_case(text);
  if (c.family == "cluster") run_cluster(c); else if (c.family == "container") run_container(c); else if (c.family == "misc") run_misc(c); else if (c.family == "parts") run_parts(c);
#ifdef WITH_JAVA
  else if (c.family == "jni") run_jni(c);
#endif
#ifdef WITH_PYTHON
  else if (c.family == "py") run_py(c);
#endif
  finish_ok();
}
static void reset_shared() { memset((void*)shared, 0, offsetof(Shared, sw)); shared->nsw = shared->nteam = 0; }
static void execute(const string& text) {
#ifdef WITH_JAVA
  jni_prepare(text, false);
#endif
  reset_shared(); fflush(stdout); pid_t p = fork();
  if (p == 0) { run_case(text); _exit(9); }
  int st = 0; while (waitpid(p, &st, 0) < 0) {}
  if (shared->status == 0) { shared->status = 2; snprintf(shared->cls, sizeof shared->cls, "crash:process"); snprintf(shared->detail, sizeof shared->detail, "the simulated process ended with wait status 0x%x in an unknown place", st); }
#ifdef WITH_JAVA
  if (shared->status != 1) jni_prepare(text, true);
#endif
}
static string jstr(const string& s) { string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
static string slurp(const string& f) { std::ifstream in(f); std::stringstream s; s << in.rdbuf(); return s.str(); }
static string explicit_text(const string& text) { // the same case with the schedule it took written out
  std::istringstream in(text); string l, o; while (std::getline(in, l)) { if (l.compare(0, 4, "cfg ") == 0) { size_t a = l.find("policy="), e = l.find(' ', a); l = l.substr(0, a) + "policy=explicit" + l.substr(e); } if (l.compare(0, 3, "sw ") && l.compare(0, 5, "team ")) o += l + "\n"; }
  for (uint32_t i = 0; i < shared->nsw; i++) o += strf("sw %lu %d\n", (unsigned long)shared->sw[i].step, shared->sw[i].fiber); for (uint32_t i = 0; i < shared->nteam; i++) o += strf("team %d %d\n", shared->team[i].ord, shared->team[i].size); return o;
}
int main(int argc, char** argv) {
  if (argc < 2) return 2; string mode = argv[1];
  int pers = personality(0xffffffff); if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1 && (personality(0xffffffff) & ADDR_NO_RANDOMIZE)) execv("/proc/self/exe", argv); // what native addresses leave in memory nobody initialised repeats from process to process
  boot();
#ifdef WITH_PYTHON
  py_boot();
#endif
  std::map<string, string> a; for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  if (mode == "gen") { fputs(generate(a["--prop"], strtoull(a["--seed"].c_str(), 0, 10), atol(a["--index"].c_str())).c_str(), stdout); return 0; }
  if (mode == "replay" || mode == "explicit") {
    string t = slurp(a["--file"]); execute(t);
    if (mode == "explicit") { if (!a["--out"].empty()) { std::ofstream o(a["--out"]); o << explicit_text(t); } }
    printf("{\"status\":%d,\"cls\":%s,\"detail\":%s,\"trace\":\"%016lx\",\"result\":\"%016lx\",\"steps\":%lu,\"switches\":%lu,\"nsw\":%u}\n", shared->status, jstr(shared->cls).c_str(), jstr(shared->detail).c_str(), (unsigned long)shared->trace_hash, (unsigned long)shared->result_hash, (unsigned long)shared->steps, (unsigned long)shared->switches, shared->nsw);
    return 0;
  }
  if (mode == "batch") { // many candidate files for the minimiser: paths on stdin
    string line; char b[4096]; while (fgets(b, sizeof b, stdin)) { line = b; while (!line.empty() && line.back() == '\n') line.pop_back(); execute(slurp(line)); printf("%d %s\n", shared->status, jstr(shared->cls).c_str()); fflush(stdout); } return 0;
  }
  if (mode != "work") return 2;
  string prop = a["--prop"]; uint64_t seed = strtoull(a["--seed"].c_str(), 0, 10); long from = atol(a["--from"].c_str()), step = atol(a["--step"].c_str()), count = atol(a["--count"].c_str()); double wall = atof(a["--wall"].c_str()); string outf = a["--out"], vdir = a["--vdir"]; int gate = atoi(a["--gate"].c_str()), maxviol = std::max(1, atoi(a["--maxviol"].c_str()));
  double t0 = now(); long done = 0, viol = 0, nontriv = 0, checks = 0, multi_cases = 0; uint64_t steps = 0, switches = 0, regions = 0, multi = 0, allocs = 0, races = 0, simms = 0, maxsteps = 0, maxheap = 0, probes = 0; uint64_t faults[F_NKINDS] = {0}; std::unordered_set<uint64_t> traces, results, both; vector<string> samples; std::map<string, long> cls; long gates = 0, gatefail = 0; long policies[P_COUNT] = {0}; std::map<string, long> fcases; string verr;
  std::ofstream vf; vector<string> vfiles;
  for (long k = 0; k < count; k++) {
    if (now() - t0 > wall || (!a["--stop"].empty() && access(a["--stop"].c_str(), F_OK) == 0)) break; long i = from + k * step; string text = generate(prop, seed, i); if (text.empty()) { fprintf(stderr, "no generator for %s\n", prop.c_str()); return 2; }
    execute(text); done++;
    uint64_t th = shared->trace_hash, rh = shared->result_hash, st = shared->steps; int stt = shared->status;
    steps += st; switches += shared->switches; regions += shared->regions; multi += shared->multi_regions; allocs += shared->allocs; races += shared->races_checked; simms += shared->sim_ms; maxsteps = std::max(maxsteps, st); maxheap = std::max(maxheap, shared->heap_top); probes |= shared->probes; checks += shared->oracle_checks; nontriv += shared->nontrivial ? 1 : 0; for (int f = 0; f < F_NKINDS; f++) { faults[f] += shared->faults[f]; }
    traces.insert(th); results.insert(rh); if (shared->nontrivial) both.insert(mix(th, rh)); if (shared->multi_regions) multi_cases++; if (shared->sample[0] && samples.size() < 4 && (k % 7 == 0 || samples.size() < 2)) samples.push_back(shared->sample);
    if (stt == 2) { string c = shared->cls; cls[c]++; if (cls[c] <= 3) { if (cls[c] == 1) viol++; string fn = vdir + "/" + prop + "-" VARIANT + strf("-%ld.case", i); std::ofstream o(fn); o << "# class " << shared->cls << "\n# detail " << shared->detail << "\n" << text; vfiles.push_back(fn); } if (viol >= maxviol) break; }
    else if (gate && k % (count / gate + 1) == 0) { execute(text); gates++; if (shared->trace_hash != th || shared->result_hash != rh || shared->steps != st || shared->status != stt) { gatefail++; verr = strf("case %ld of seed %lu did not repeat: trace %lx/%lx result %lx/%lx steps %lu/%lu status %d/%d", i, (unsigned long)seed, (unsigned long)th, (unsigned long)shared->trace_hash, (unsigned long)rh, (unsigned long)shared->result_hash, (unsigned long)st, (unsigned long)shared->steps, stt, shared->status); } }
  }
  std::ofstream o(outf); o << "{\"cases\":" << done << ",\"wall\":" << (now() - t0) << ",\"nontrivial\":" << nontriv << ",\"oracle_checks\":" << checks << ",\"steps\":" << steps << ",\"max_steps\":" << maxsteps << ",\"max_heap\":" << maxheap << ",\"switches\":" << switches << ",\"regions\":" << regions << ",\"multi_regions\":" << multi << ",\"multi_cases\":" << multi_cases << ",\"allocs\":" << allocs << ",\"races_checked\":" << races << ",\"sim_ms\":" << simms << ",\"probes\":" << probes << ",\"gates\":" << gates << ",\"gatefail\":" << gatefail << ",\"gateerr\":" << jstr(verr) << ",\"faults\":{";
  for (int f = 0; f < F_NKINDS; f++) o << (f ? "," : "") << "\"" << fault_names[f] << "\":" << faults[f]; o << "},\"classes\":{"; bool first = true; for (auto& x : cls) { o << (first ? "" : ",") << jstr(x.first) << ":" << x.second; first = false; } o << "},\"violations\":["; for (size_t i = 0; i < vfiles.size(); i++) o << (i ? "," : "") << jstr(vfiles[i]); o << "],\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << jstr(samples[i]); o << "],\"traces\":["; first = true; for (auto x : traces) { o << (first ? "" : ",") << "\"" << std::hex << x << std::dec << "\""; first = false; } o << "],\"results\":["; first = true; for (auto x : both) { o << (first ? "" : ",") << "\"" << std::hex << x << std::dec << "\""; first = false; } o << "]}\n";
  return 0;
}
