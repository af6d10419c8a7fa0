// A filter and its inverse for tests: `filt f` / `filt u`, with a header, a nonce of its own for each object, and a
// trailer by which the inverse notices missing bytes. FILT_NONCE (hex) fixes the nonce. FILT_DIR is a directory where
// each run adds a byte to "f" or "u", so that FILT_FAIL=<f|u>:<n>:<how> can make the nth run of a kind fail.
// Options: -x doubles the size, -b buffers everything, -s writes slowly in small pieces, -p leaves out body bytes that follow zero (none).
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

static int twice, buffered, slow;
static unsigned char *out; static size_t outn, outcap; static size_t sent;
static const char *how = "";

static void all(const unsigned char *p, size_t n) {
  while (n) {
    size_t k = slow ? (n < 777 ? n : 777) : n;
    ssize_t w = write(1, p, k);
    if (w <= 0) exit(9);
    if (slow && sent < 20000) { struct timespec t = {0, 300000}; nanosleep(&t, 0); }
    p += w; n -= w; sent += w;
  }
}
static void flush(void) { if (!how[0]) { all(out, outn); outn = 0; } }
static void emit(const unsigned char *p, size_t n) {
  if (outn + n > outcap) { outcap = (outn + n) * 2 + 4096; out = realloc(out, outcap); }
  memcpy(out + outn, p, n); outn += n;
}
static uint64_t key; static uint64_t ks; static int kn;
static unsigned char stream(void) {
  if (!kn) { key += 0x9e3779b97f4a7c15ull; uint64_t z = key; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; ks = z ^ z >> 31; kn = 8; }
  unsigned char c = ks; ks >>= 8; kn--; return c;
}
static uint64_t sum = 1469598103934665603ull;
static void fnv(unsigned char c) { sum = (sum ^ c) * 1099511628211ull; }

// However signals are set up where this runs.
static void die(int sig) {
  signal(sig, SIG_DFL);
  sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, NULL);
  kill(getpid(), sig);
  _exit(1);
}

int main(int argc, char **argv) {
  if (argc < 2) return 64;
  char mode = argv[1][0];
  for (int i = 2; i < argc; i++) for (char *o = argv[i]; *o; o++) { twice |= *o == 'x'; buffered |= *o == 'b'; slow |= *o == 's'; }
  const char *d = getenv("FILT_DIR"), *f = getenv("FILT_FAIL");
  long nth = 0;
  if (d) {
    char p[4096]; snprintf(p, sizeof p, "%s/%c", d, mode);
    int fd = open(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if (fd >= 0) { if (write(fd, ".", 1) == 1) nth = lseek(fd, 0, SEEK_CUR); close(fd); }
  }
  if (f && f[0] == mode && f[1] == ':' && nth == atol(f + 2)) {
    how = strchr(f + 2, ':') + 1;
    if (d) { char p[4096]; snprintf(p, sizeof p, "%s/failed", d); int fd = open(p, O_WRONLY | O_CREAT, 0666); if (fd >= 0) close(fd); }
  }
  const char *cs = getenv("FILT_CODE"), *ss = getenv("FILT_SIG");
  int code = cs ? atoi(cs) : 0, sig = ss ? atoi(ss) : 0;      // How it fails: other codes and signals.
  if (!strcmp(how, "early")) return (code ? code : 3);
  if (!strcmp(how, "stderr")) { for (int i = 0; i < 4000; i++) fprintf(stderr, "filt: this is going wrong, and there is a lot to say about it\n"); return 1; }
  if (!strcmp(how, "earlykill")) die(sig ? sig : SIGKILL);
  if (!strcmp(how, "shut")) { close(1); }
  // Input.
  size_t cap = 1 << 16, n = 0, at = 0; unsigned char *in = malloc(cap);
  unsigned char nonce[16]; int head = 0;
  if (mode == 'f') {
    const char *h = getenv("FILT_NONCE");
    if (h) for (int i = 0; i < 16; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); nonce[i] = v; }
    else { int fd = open("/dev/urandom", O_RDONLY); if (read(fd, nonce, 16) != 16) return 8; close(fd); }
    memcpy(&key, nonce, 8);
    emit((unsigned char *)"FLT1", 4); emit(nonce, 16);
  }
  int hi = -1; unsigned char tail[8]; int tn = 0;
  for (;;) {
    if (n + 65536 > cap) in = realloc(in, cap *= 2);
    ssize_t r = read(0, in + n, slow ? 1000 : 65536);
    if (r < 0) return 7;
    if (!r) break;
    n += r;
    if (!strcmp(how, "midkill") && n > 100) { all(out, outn); die(sig ? sig : SIGKILL); }
    if (!strcmp(how, "midexit") && n > 100) { all(out, outn); return code ? code : 5; }
    if (buffered) continue;
    if (mode == 'f') for (; at < n; at++) { fnv(in[at]); unsigned char c = in[at] ^ stream(); emit(&c, 1); if (twice) emit(&c, 1); }
    else goto dec;
    if (0) dec: {
      for (; at < n; at++) {
        if (head < 20) { if (head < 4) { if (in[at] != "FLT1"[head]) return 4; } else nonce[head - 4] = in[at]; if (++head == 20) memcpy(&key, nonce, 8); continue; }
        // The last eight bytes are the trailer.
        unsigned char c;
        if (tn < 8) { tail[tn++] = in[at]; continue; }
        c = tail[0]; memmove(tail, tail + 1, 7); tail[7] = in[at];
        if (twice) { if (hi < 0) { hi = c; continue; } if (hi != c) return 4; hi = -1; }
        c ^= stream(); fnv(c); emit(&c, 1);
      }
    }
    if (outn > 8192) flush();
  }
  if (mode == 'f') {
    for (; at < n; at++) { fnv(in[at]); unsigned char c = in[at] ^ stream(); emit(&c, 1); if (twice) emit(&c, 1); }
    emit((unsigned char *)&sum, 8);
  } else {
    for (; at < n; at++) {
      if (head < 20) { if (head < 4) { if (in[at] != "FLT1"[head]) return 4; } else nonce[head - 4] = in[at]; if (++head == 20) memcpy(&key, nonce, 8); continue; }
      unsigned char c;
      if (tn < 8) { tail[tn++] = in[at]; continue; }
      c = tail[0]; memmove(tail, tail + 1, 7); tail[7] = in[at];
      if (twice) { if (hi < 0) { hi = c; continue; } if (hi != c) return 4; hi = -1; }
      c ^= stream(); fnv(c); emit(&c, 1);
    }
    if (head < 20 || tn < 8 || hi >= 0 || memcmp(tail, &sum, 8)) { if (!how[0]) flush(); return 4; }
  }
  if (!strcmp(how, "shut")) return (code ? code : 3);
  if (!strcmp(how, "midkill")) die(sig ? sig : SIGKILL);
  if (!strcmp(how, "midexit")) return (code ? code : 5);
  if (!strcmp(how, "eof")) return (code ? code : 3);
  if (!strcmp(how, "eofkill")) die(sig ? sig : SIGTERM);
  if (!strcmp(how, "half")) { all(out, outn / 2); return code ? code : 3; }
  if (!strcmp(how, "halfkill")) { all(out, outn / 2); die(sig ? sig : SIGKILL); }
  if (!strcmp(how, "cut0")) { all(out, outn > 10 ? outn - 10 : outn / 2); return 0; }
  all(out, outn);
  if (!strcmp(how, "full")) return (code ? code : 1);
  if (!strcmp(how, "fullkill")) die(sig ? sig : SIGSEGV);
  return 0;
}
