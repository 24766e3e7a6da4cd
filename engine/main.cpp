#include "exec.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/resource.h>
#include <pthread.h>
static int rc; static void *run(void *) { rc = runEngine(); return nullptr; }
int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "--selftest")) { int b = exprSelfTest(argc > 2 ? atoi(argv[2]) : 1, 2000); printf("simplifier self-test: %d mismatches\n", b); solverInit(); extern int solverSelfTest(u64, int); b += solverSelfTest(argc > 2 ? atoi(argv[2]) : 1, argc > 3 ? atoi(argv[3]) : 60); return b ? 3 : 0; }
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto v = [&](const char *p) -> const char * { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; }; const char *x;
    if ((x = v("--entry="))) g_opt.entry = x; else if ((x = v("--out="))) g_opt.out = x; else if ((x = v("--time="))) g_opt.timeLimit = atof(x); else if ((x = v("--samples="))) g_opt.samples = atoi(x); else if ((x = v("--seed="))) g_opt.seed = atoi(x);
    else if ((x = v("--qtime="))) g_solverTimeoutMs = atoi(x); else if ((x = v("--max-paths="))) g_opt.maxPaths = atoll(x); else if ((x = v("--max-inst="))) g_opt.maxInstPerPath = atoll(x); else if ((x = v("--fill="))) g_opt.fill = atoi(x); else if ((x = v("--preempt="))) g_opt.maxPreempt = atoi(x);
    else if ((x = v("--param="))) { const char *e = strchr(x, '='); if (e) g_opt.params[std::string(x, e - x)] = atoll(e + 1); }
    else if ((x = v("--shard="))) { g_opt.shardI = atoi(x); const char *e = strchr(x, '/'); if (e) g_opt.shardN = atoi(e + 1); }
    else if (a == "--merge") g_opt.forkSel = false; else if (a == "--all") g_opt.stopFirst = false; else if (a == "--trace") g_opt.trace = true; else g_opt.module = a; }
  if (!loadModule(g_opt.module)) return 3;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1024UL << 20); pthread_t th; pthread_create(&th, &at, run, nullptr); pthread_join(th, nullptr);
  fflush(stdout); _Exit(rc);
}
