/* Line-driven client of the R2U2 C library: only the public API of r2u2.h and
 * memory/monitor.h.  Commands on stdin, everything observable on stdout:
 *   mon K              make monitor K (0..2) current
 *   load FILE          r2u2_load_specification  -> "L K rc"
 *   b|i|f|s IDX VALUE  load a bool / int / float / string signal
 *   step               r2u2_step                -> verdicts, then "S K rc"
 *   reset clock|soft|hard
 *   file               send the monitor's log to stdout as well ("K<id>:<t>,T" lines)
 * Each verdict the callback sees prints "V K id time T|F". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "r2u2.h"

static r2u2_monitor_t m0 = R2U2_DEFAULT_MONITOR;
static r2u2_monitor_t m1 = R2U2_DEFAULT_MONITOR;
static r2u2_monitor_t m2 = R2U2_DEFAULT_MONITOR;
static r2u2_monitor_t* mons[3] = {&m0, &m1, &m2};
static int cur = 0;

static r2u2_status_t on_verdict(r2u2_mltl_instruction_t instr, r2u2_verdict* v) {
  printf("V %d %u %u %s\n", cur, (unsigned)instr.op2_value, (unsigned)get_verdict_time(*v), get_verdict_truth(*v) ? "T" : "F");
  return R2U2_OK;
}

int main(void) {
  static char line[1 << 16];
  for (int k = 0; k < 3; k++) mons[k]->out_func = on_verdict;
  while (fgets(line, sizeof line, stdin)) {
    char* save;
    char* cmd = strtok_r(line, " \n", &save);
    if (!cmd) continue;
    r2u2_monitor_t* m = mons[cur];
    if (!strcmp(cmd, "mon")) {
      cur = atoi(strtok_r(NULL, " \n", &save));
    } else if (!strcmp(cmd, "load")) {
      char* path = strtok_r(NULL, "\n", &save);
      FILE* f = fopen(path, "rb");
      if (!f) { printf("E cannot open %s\n", path); return 3; }
      fseek(f, 0, SEEK_END);
      long n = ftell(f);
      rewind(f);
      uint8_t* buf = malloc((size_t)n);
      if (fread(buf, 1, (size_t)n, f) != (size_t)n) return 3;
      fclose(f);
      r2u2_status_t rc = r2u2_load_specification(buf, m);
      free(buf); /* the CLI unmaps it too */
      printf("L %d %d\n", cur, (int)rc);
    } else if (!strcmp(cmd, "step")) {
      r2u2_status_t rc = r2u2_step(m);
      printf("S %d %d\n", cur, (int)rc);
    } else if (!strcmp(cmd, "file")) {
      m->out_file = stdout;
    } else if (!strcmp(cmd, "reset")) {
      char* how = strtok_r(NULL, " \n", &save);
      if (!strcmp(how, "clock")) r2u2_monitor_clock_reset(m);
      else if (!strcmp(how, "soft")) r2u2_monitor_soft_reset(m);
      else r2u2_monitor_hard_reset(m);
    } else {
      char* idx = strtok_r(NULL, " \n", &save);
      char* val = strtok_r(NULL, "\n", &save);
      size_t k = (size_t)atoi(idx);
      switch (cmd[0]) {
        case 'b': r2u2_load_bool_signal(m, k, atoi(val) != 0); break;
        case 'i': r2u2_load_int_signal(m, k, (r2u2_int)atol(val)); break;
        case 'f': r2u2_load_float_signal(m, k, strtod(val, NULL)); break;
        case 's': r2u2_load_string_signal(m, k, val); break;
        default: printf("E bad command %s\n", cmd); return 3;
      }
    }
  }
  fflush(stdout);
  return 0;
}
