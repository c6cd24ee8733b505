// Conformance driver: executes a script against monotone through its public API
// and records, per line, what the API returned and the state it exposes.
//
//   mdrv <workdir> <script>... : every script is run in a child process of its own
//                                (scratch data directory under <workdir>), the
//                                record goes to <script>.out
//
// The driver decides nothing: verdicts are TLC's, over the recorded traces.
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <monotone.h>
#include "wrap.h"
#include "drv.h"

FILE *out;
char  work[1024];       // scratch directory of this script
char  ddir[1200];       // data directory
monotone_t *env;
int   line_no;

// ---- keys and values -------------------------------------------------------
#define MAX_KEYS 256
struct key keys[MAX_KEYS];
int keys_n;

#define MAX_VALS 200000
uint32_t val_size[MAX_VALS];   // size by token (0: unknown)
int val_mode;                  // 0 mixed, 1 compressible, 2 random

uint8_t *val_make(uint32_t t, uint32_t size)
{
	uint8_t *v = malloc(size + 1);
	if (t < MAX_VALS) val_size[t] = size + 1;
	uint32_t x = t * 2654435761u + 12345;
	for (uint32_t i = 0; i < size; i++) {
		if (i < 3) { v[i] = t >> (8 * i); continue; }
		if (t & 1) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; v[i] = x >> 7; }
		else v[i] = (uint8_t)(t + i / 16);
	}
	return v;
}

long val_token(const uint8_t *v, size_t n)
{
	if (n == 0) return 0;
	if (n < 3) return -1;
	uint32_t t = v[0] | v[1] << 8 | (uint32_t)v[2] << 16;
	if (t < MAX_VALS && val_size[t] && val_size[t] != n + 1) return -2;
	uint32_t sv = t < MAX_VALS ? val_size[t] : 0;
	uint8_t *e = val_make(t, n);
	if (t < MAX_VALS) val_size[t] = sv;
	long rc = memcmp(e, v, n) == 0 ? (long)t : -3;
	free(e);
	return rc;
}

int key_index(const uint8_t *k, size_t n)
{
	for (int i = 0; i < keys_n; i++)
		if (keys[i].n == n && (n == 0 || memcmp(keys[i].b, k, n) == 0))
			return i;
	return -1;
}

// ---- output ----------------------------------------------------------------
void jstr(FILE *f, const char *s)
{
	fputc('"', f);
	for (; s && *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

void jraw(FILE *f, const char *s) // JSON text with newlines removed
{
	for (; s && *s; s++)
		if (*s != '\n' && *s != '\t' && *s != '\r') fputc(*s, f);
}

void emit_event(FILE *f, monotone_event_t *e, int first)
{
	fprintf(f, "%s[%" PRIu64 ",%d,%ld]", first ? "" : ",", e->id,
	        key_index(e->key, e->key_size), val_token(e->value, e->value_size));
}

#define SCAN_LIMIT 60000
void scan(FILE *f, monotone_t *e, monotone_event_t *key)
{
	monotone_cursor_t *c = monotone_cursor(e, NULL, key);
	if (!c) {
		fprintf(f, "{\"err\":");
		jstr(f, monotone_error(e));
		fprintf(f, "}");
		return;
	}
	fputc('[', f);
	int n = 0;
	monotone_event_t ev;
	for (;;) {
		int rc = monotone_read(c, &ev);
		if (rc == 0) break;
		if (rc < 0) { fprintf(stderr, "scan: %s\n", monotone_error(e)); fprintf(f, "%s[-1,-1,-1]", n ? "," : ""); break; }
		emit_event(f, &ev, n == 0);
		if (++n > SCAN_LIMIT) { fprintf(f, ",[-2,-2,-2]"); break; }
		rc = monotone_next(c);
		if (rc == 0) break;
		if (rc < 0) { fprintf(stderr, "scan: %s\n", monotone_error(e)); fprintf(f, ",[-1,-1,-1]"); break; }
	}
	fputc(']', f);
	monotone_free(c);
}

void show(FILE *f, monotone_t *e, const char *name, const char *q)
{
	char *r = NULL;
	fprintf(f, ",\"%s\":", name);
	if (monotone_execute(e, q, &r) == 0 && r) {
		jraw(f, r);
	} else {
		fprintf(f, "{\"err\":");
		jstr(f, monotone_error(e));
		fprintf(f, "}");
	}
	free(r);
}

// rows of a result, one per line
static void show_lines(FILE *f, monotone_t *e, const char *name, const char *q)
{
	char *r = NULL;
	fprintf(f, ",\"%s\":", name);
	if (monotone_execute(e, q, &r) == 0) {
		fputc('[', f);
		int n = 0;
		for (char *x = r ? strtok(r, "\n") : NULL; x; x = strtok(NULL, "\n"))
			fprintf(f, "%s%s", n++ ? "," : "", x);
		fputc(']', f);
	} else {
		fprintf(f, "{\"err\":");
		jstr(f, monotone_error(e));
		fprintf(f, "}");
	}
	free(r);
}

static int cmpstr(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static void list_rec(FILE *f, const char *dir, const char *rel, int *n)
{
	DIR *d = opendir(dir);
	if (!d) return;
	char *names[8192]; int cnt = 0;
	struct dirent *e;
	while ((e = readdir(d)))
		if (e->d_name[0] != '.' && cnt < 8192) names[cnt++] = strdup(e->d_name);
	closedir(d);
	qsort(names, cnt, sizeof(char *), cmpstr);
	for (int i = 0; i < cnt; i++) {
		char p[4096], r[4096];
		snprintf(p, sizeof p, "%s/%s", dir, names[i]);
		snprintf(r, sizeof r, "%s%s%s", rel, *rel ? "/" : "", names[i]);
		struct stat st;
		if (lstat(p, &st) == 0) {
			if (S_ISDIR(st.st_mode)) list_rec(f, p, r, n);
			else if (strcmp(names[i], "log")) {
				fprintf(f, "%s[", *n ? "," : "");
				jstr(f, r);
				fprintf(f, ",%" PRIu64 "]", (uint64_t)st.st_size);
				(*n)++;
			}
		}
		free(names[i]);
	}
}

void observe(FILE *f, monotone_t *e, const char *mask, const char *dir)
{
	fprintf(f, "\"obs\":{\"z\":0");
	for (; *mask; mask++) {
		switch (*mask) {
		case 'k': fprintf(f, ",\"kv\":"); scan(f, e, NULL); break;
		case 'p': show(f, e, "parts", "show partitions"); break;
		case 'P': show(f, e, "partsd", "show partitions debug"); break;
		case 's': show(f, e, "stor", "show storages"); break;
		case 'c': show(f, e, "clouds", "show clouds"); break;
		case 'l': show(f, e, "pipe", "show pipeline"); break;
		case 'w': show(f, e, "wal", "show wal"); break;
		case 'g': show(f, e, "config", "show config"); break;
		case 'm': show(f, e, "mem", "show memory"); break;
		case 'n': show(f, e, "ssn", "show ssn"); break;
		case 'r': show_lines(f, e, "recs", "debug \"wal_read\""); break;
		case 'N': show(f, e, "lsn", "show lsn"); break;
		case 'f': {
			int n = 0;
			fprintf(f, ",\"files\":[");
			list_rec(f, dir, "", &n);
			fprintf(f, "]");
			break; }
		}
	}
	fprintf(f, "}");
}

// ---- crash images ----------------------------------------------------------
#define MAX_IMG 20000
static struct img { int line; int pos; int torn; int power; uint64_t hash; char what[16]; int dup; } imgs[MAX_IMG];
static int imgs_n, img_power, img_seq, img_max = 4000;
static char rec_sets[64][256];
static int rec_sets_n;
static char rec_obs[32] = "k";
static uint64_t probe_id; static int probe_k = -1; static uint32_t probe_t, probe_size;
static int rec_depth, rec_svc;

static uint64_t fnv(uint64_t h, const void *p, size_t n)
{
	const uint8_t *b = p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
	return h;
}
static uint64_t tree_hash(const char *dir, uint64_t h)
{
	DIR *d = opendir(dir);
	if (!d) return h;
	char *names[8192]; int cnt = 0;
	struct dirent *e;
	while ((e = readdir(d)))
		if (e->d_name[0] != '.' && cnt < 8192) names[cnt++] = strdup(e->d_name);
	closedir(d);
	qsort(names, cnt, sizeof(char *), cmpstr);
	for (int i = 0; i < cnt; i++) {
		char p[4096];
		snprintf(p, sizeof p, "%s/%s", dir, names[i]);
		h = fnv(h, names[i], strlen(names[i]) + 1);
		struct stat st;
		if (lstat(p, &st) == 0) {
			if (S_ISDIR(st.st_mode)) h = tree_hash(p, h);
			else {
				FILE *f = fopen(p, "r");
				char b[65536]; size_t r;
				while (f && (r = fread(b, 1, sizeof b, f)) > 0) h = fnv(h, b, r);
				if (f) fclose(f);
				h = fnv(h, "|", 1);
			}
		}
		free(names[i]);
	}
	return h;
}

static void snap_one(const char *what, int torn, int power)
{
	if (imgs_n >= MAX_IMG || imgs_n >= img_max) return;
	char p[1400];
	snprintf(p, sizeof p, "%s/img%d", work, img_seq);
	wrap_copy_tree(ddir, p, power);
	struct img *m = &imgs[imgs_n];
	m->line = line_no; m->pos = hist_pos; m->torn = torn; m->power = power; m->dup = -1;
	snprintf(m->what, sizeof m->what, "%s", what);
	m->hash = tree_hash(p, 1469598103934665603ull);
	for (int i = imgs_n - 1; i >= 0; i--)
		if (imgs[i].hash == m->hash && imgs[i].power == power) {
			if (imgs[i].line == line_no && imgs[i].pos == hist_pos) { wrap_remove_tree(p); return; }
			m->dup = imgs[i].dup >= 0 ? imgs[i].dup : i;
			wrap_remove_tree(p);
			break;
		}
	if (m->dup < 0) {
		char q[1400];
		snprintf(q, sizeof q, "%s/im_%d", work, imgs_n);
		rename(p, q);
	}
	imgs_n++;
	img_seq++;
}

void on_snap(const char *what, int torn)
{
	int armed = wrap.armed;
	wrap.armed = 0;
	snap_one(what, torn, 0);
	if (img_power) snap_one(what, torn, 1);
	wrap.armed = armed;
}

static char kill_dir[1300];
static int kill_power;
static void on_kill(const char *what)
{
	(void)what;
	int armed = wrap.armed;
	wrap.armed = 0;
	wrap_copy_tree(ddir, kill_dir, kill_power);
	wrap.armed = armed;
}

static monotone_t *open_env(const char *dir, char **err)
{
	monotone_t *e = monotone_init();
	for (int i = 0; i < rec_sets_n; i++)
		monotone_execute(e, rec_sets[i], NULL);
	if (monotone_open(e, dir) == -1) {
		*err = strdup(monotone_error(e));
		monotone_free(e);
		return NULL;
	}
	return e;
}

static void recover_write_probe(monotone_t *e, FILE *f)
{
	monotone_event_t ev = { 0 };
	ev.id = probe_id;
	ev.key = keys[probe_k].b; ev.key_size = keys[probe_k].n;
	ev.value = val_make(probe_t, probe_size); ev.value_size = probe_size;
	int rc = monotone_write(e, &ev, 1);
	fprintf(f, ",\"probe\":%s", rc == 0 ? "true" : "false");
	free(ev.value);
}

static void recover_image(const char *dir, FILE *f)
{
	// 1. open and dump; 2. write a probe, restart, dump; 3. restart, dump
	char *err = NULL;
	snprintf(wrap.dir, sizeof wrap.dir, "%s", dir);
	monotone_t *e = open_env(dir, &err);
	if (!e) {
		fprintf(f, "{\"ok\":false,\"err\":");
		jstr(f, err);
		fprintf(f, "}");
		return;
	}
	fprintf(f, "{\"ok\":true,");
	observe(f, e, rec_obs, dir);
	for (int i = 0; i < rec_svc; i++) monotone_execute(e, "service", NULL);
	if (probe_k >= 0) recover_write_probe(e, f);
	monotone_free(e);
	for (int i = 2; i <= 3 && rec_depth >= i; i++) {
		e = open_env(dir, &err);
		if (!e) {
			fprintf(f, ",\"ok%d\":false,\"err\":", i);
			jstr(f, err);
			fprintf(f, "}");
			return;
		}
		fprintf(f, ",\"ok%d\":true,\"kv%d\":", i, i);
		scan(f, e, NULL);
		monotone_free(e);
	}
	fprintf(f, "}");
}

static void recover_all(void)
{
	char *recs[MAX_IMG];
	memset(recs, 0, sizeof recs);
	wrap.armed = 0;
	for (int i = 0; i < imgs_n; i++) {
		struct img *m = &imgs[i];
		if (m->dup < 0) {
			char p[1400], q[1400];
			snprintf(p, sizeof p, "%s/im_%d", work, i);
			snprintf(q, sizeof q, "%s/rec", work);
			fflush(out);
			pid_t pid = fork();
			if (pid == 0) {
				alarm(20);
				FILE *f = fopen(q, "w");
				recover_image(p, f);
				fclose(f);
				_exit(0);
			}
			int st;
			waitpid(pid, &st, 0);
			char *buf = NULL;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
				FILE *f = fopen(q, "r");
				fseek(f, 0, SEEK_END);
				long n = ftell(f);
				rewind(f);
				buf = calloc(1, n + 1);
				if (fread(buf, 1, n, f) != (size_t)n) abort();
				fclose(f);
			} else {
				buf = malloc(128);
				snprintf(buf, 128, "{\"ok\":false,\"err\":\"recovery died: %s %d\"}",
				         WIFSIGNALED(st) ? "signal" : "exit",
				         WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
			}
			recs[i] = buf;
			if (!getenv("MDRV_KEEP")) wrap_remove_tree(p);
		}
		fprintf(out, "{\"img\":%d,\"line\":%d,\"pos\":%d,\"what\":\"%s\",\"torn\":%d,\"power\":%d,\"rec\":%s}\n",
		        i, m->line, m->pos, m->what, m->torn, m->power, recs[m->dup >= 0 ? m->dup : i]);
	}
}

// ---- script ----------------------------------------------------------------
static struct { char name[16]; monotone_cursor_t *c; } curs[64];
static monotone_cursor_t **cur_slot(const char *n)
{
	for (int i = 0; i < 64; i++) if (!strcmp(curs[i].name, n)) return &curs[i].c;
	for (int i = 0; i < 64; i++) if (!curs[i].c) { snprintf(curs[i].name, 16, "%s", n); return &curs[i].c; }
	abort();
}

static char autoobs[32];
static char toks[70000][48];

static int tokenize(char *s)
{
	int n = 0;
	char *p = strtok(s, " ");
	while (p && n < 70000) { snprintf(toks[n++], 48, "%s", p); p = strtok(NULL, " "); }
	return n;
}

static void parse_event(monotone_event_t *e, char (*t)[48])
{
	// flags id k t size
	memset(e, 0, sizeof *e);
	e->flags = atoi(t[0]);
	e->id = strtoull(t[1], NULL, 10);
	int k = atoi(t[2]);
	e->key = keys[k].n ? keys[k].b : NULL; e->key_size = keys[k].n;
	uint32_t tok = strtoul(t[3], NULL, 10), sz = strtoul(t[4], NULL, 10);
	e->value = sz ? val_make(tok, sz) : NULL;
	e->value_size = sz;
}

static void result(int rc)
{
	fprintf(out, "{\"line\":%d,\"ok\":%s", line_no, rc == 0 ? "true" : "false");
	if (rc != 0) { fprintf(out, ",\"err\":"); jstr(out, monotone_error(env)); }
}
static void finish(void)
{
	fprintf(out, ",");
	int armed = wrap.armed;
	wrap.armed = 0;
	observe(out, env, env ? autoobs : "", ddir);
	wrap.armed = armed;
	fprintf(out, "}\n");
	fflush(out);
}

// damage <kind> <pick> <mode> <off permille> <len> <seed>
//   kind w: newest log file, W: an older one, p: partition file, c: index of a cloud copy, m: file in the cloud
//   mode flip: change every byte of the range, zero, trunc: cut off there
//   kind j: an unrelated file appears
static char *dmg_list[4096]; static int dmg_n;
static void dmg_collect(const char *rel, char kind)
{
	char p[4096];
	snprintf(p, sizeof p, "%s%s%s", ddir, *rel ? "/" : "", rel);
	DIR *d = opendir(p);
	if (!d) return;
	struct dirent *e;
	while ((e = readdir(d))) {
		if (e->d_name[0] == '.' || dmg_n >= 4000) continue;
		char r[2048];
		snprintf(r, sizeof r, "%s%s%s", rel, *rel ? "/" : "", e->d_name);
		snprintf(p, sizeof p, "%s/%s", ddir, r);
		struct stat st;
		if (lstat(p, &st)) continue;
		if (S_ISDIR(st.st_mode)) { dmg_collect(r, kind); continue; }
		int wal = !strncmp(r, "wal/", 4), mock = strstr(r, "/mock/") || !strncmp(r, "s3/", 3);
		int digits = strspn(e->d_name, "0123456789");
		if (e->d_name[digits] && strcmp(e->d_name + digits, ".cloud")) digits = 0; // some other file
		int cl = strlen(r) > 6 && !strcmp(r + strlen(r) - 6, ".cloud");
		int ok = kind == 'w' || kind == 'W' ? wal && digits :
		         kind == 'm' ? mock && digits : kind == 'c' ? cl && !mock : !wal && !mock && !cl && digits == 20 && strchr(r, '/');
		if (ok) dmg_list[dmg_n++] = strdup(r);
	}
	closedir(d);
}
static void damage(char *arg)
{
	char kind = 0, mode[16] = ""; unsigned pick = 0, seed = 1; int off = 0, len = 1;
	sscanf(arg, " %c %u %15s %d %d %u", &kind, &pick, mode, &off, &len, &seed);
	char p[4096];
	if (kind == 'j') {
		static const char *names[] = { "wal/notes", "wal/00000000000000000007.bak", "lost", "notes.txt", "wal/tmp/x" };
		static const char *snames[] = { "notes", "00000000000000000003.bak", "3.wal", "00000000000000000003.incomplete", "00000000000000000003.cloud.incomplete" };
		char r[2048]; snprintf(r, sizeof r, "%s", names[pick % 5]);
		for (int i = 0; i < dmg_n; i++) free(dmg_list[i]);
		dmg_n = 0;
		dmg_collect("", 'p');
		if (dmg_n && pick & 8) { // in a storage
			qsort(dmg_list, dmg_n, sizeof(char *), cmpstr);
			snprintf(r, sizeof r, "%.*s%s", (int)(strchr(dmg_list[0], '/') + 1 - dmg_list[0]), dmg_list[0], snames[pick % 5]);
		}
		for (char *q = r; *q; q++) if (*q == '/') { *q = 0; snprintf(p, sizeof p, "%s/%s", ddir, r); mkdir(p, 0755); *q = '/'; }
		snprintf(p, sizeof p, "%s/%s", ddir, r);
		FILE *f = fopen(p, "w");
		if (f) { for (int i = 0; i < len; i++) fputc((seed >> (i % 24)) ^ i, f); fclose(f); }
		fprintf(out, "{\"line\":%d,\"ok\":true,\"file\":\"%s\",\"size\":0,\"off\":0,\"changed\":1,\"obs\":{}}\n", line_no, r);
		return;
	}
	for (int i = 0; i < dmg_n; i++) free(dmg_list[i]);
	dmg_n = 0;
	dmg_collect("", kind);
	qsort(dmg_list, dmg_n, sizeof(char *), cmpstr);
	char *r = NULL;
	if (kind == 'w' && dmg_n) r = dmg_list[dmg_n - 1];
	else if (kind == 'W' && dmg_n > 1) r = dmg_list[pick % (dmg_n - 1)];
	else if (kind != 'w' && kind != 'W' && dmg_n) r = dmg_list[pick % dmg_n];
	long size = 0, o = 0; int changed = 0;
	if (r) {
		snprintf(p, sizeof p, "%s/%s", ddir, r);
		struct stat st;
		if (!stat(p, &st)) size = st.st_size;
		// permille, or bytes from the end when negative
		o = off < 0 ? size + off : size * off / 1000;
		if (o < 0) o = 0;
		if (size > 0 && o < size) {
			if (!strcmp(mode, "trunc")) { if (!truncate(p, o)) changed = size - o; }
			else {
				FILE *f = fopen(p, "r+");
				uint32_t x = seed * 2654435761u + 99;
				for (int i = 0; f && i < len && o + i < size; i++) {
					fseek(f, o + i, SEEK_SET);
					int c = fgetc(f), n;
					x ^= x << 13; x ^= x >> 17; x ^= x << 5;
					n = !strcmp(mode, "zero") ? 0 : !strcmp(mode, "bit") ? c ^ (1 << (x & 7)) : (c ^ (1 + x % 255));
					fseek(f, o + i, SEEK_SET);
					fputc(n, f);
					changed += n != c;
				}
				if (f) fclose(f);
			}
		}
	}
	fprintf(out, "{\"line\":%d,\"ok\":true,\"file\":", line_no);
	jstr(out, r ? r : "");
	fprintf(out, ",\"size\":%ld,\"off\":%ld,\"changed\":%d,\"obs\":{}}\n", size, o, changed);
}

// occurrences of a byte string in the files below dir (log files excluded)
static int grep_rec(const char *dir, const uint8_t *b, int n)
{
	int hits = 0;
	DIR *d = opendir(dir);
	if (!d) return 0;
	struct dirent *e;
	while ((e = readdir(d))) {
		if (e->d_name[0] == '.' || !strcmp(e->d_name, "wal")) continue;
		char p[4096];
		snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
		struct stat st;
		if (lstat(p, &st)) continue;
		if (S_ISDIR(st.st_mode)) { hits += grep_rec(p, b, n); continue; }
		FILE *f = fopen(p, "r");
		if (!f) continue;
		uint8_t *buf = malloc(st.st_size + 1);
		size_t r = fread(buf, 1, st.st_size, f);
		fclose(f);
		if (memmem(buf, r, b, n)) hits++;
		free(buf);
	}
	closedir(d);
	return hits;
}

static void run_line(char *s);
static void kill_run(char *arg)
{
	// kill <k> <torn> <seed> <command>: run the command, let the database continue from
	// the directory as it was at the command's k-th file operation (or at its end)
	int k = 1, torn = 0, n = 0; unsigned seed = 1;
	sscanf(arg, "%d %d %d %u %n", &k, &torn, &kill_power, &seed, &n);
	static int seq;
	snprintf(kill_dir, sizeof kill_dir, "%s/kill%d", work, seq++);
	wrap_srand(seed);
	wrap.on_kill = on_kill; wrap.kill_at = k; wrap.kill_torn = torn; wrap.kill_done = 0;
	int armed = wrap.armed;
	wrap.armed = 1;
	run_line(arg + n);
	wrap.armed = armed;
	wrap.kill_at = 0;
	if (!wrap.kill_done) on_kill("end");
	// the process is gone
	wrap.armed = 0; wrap.fault_left = 0;
	for (int i = 0; i < 64; i++) if (curs[i].c) { monotone_free(curs[i].c); curs[i].c = NULL; }
	if (env) monotone_free(env);
	env = NULL;
	char old[1300];
	snprintf(old, sizeof old, "%s/old", work);
	rename(ddir, old);
	rename(kill_dir, ddir);
	wrap_remove_tree(old);
	wrap_sync_mark_all(ddir);
	wrap.armed = wrap.snap_on;
	fprintf(out, "{\"killed\":%d,\"done\":%d}\n", line_no, wrap.kill_done);
}

static void run_line(char *s)
{
	char cmd[32]; int n = 0;
	if (sscanf(s, "%31s%n", cmd, &n) < 1) return;
	char *arg = s + n;
	while (*arg == ' ') arg++;

	if (!strcmp(cmd, "key")) { // key <hex|->
		struct key *k = &keys[keys_n++];
		if (*arg != '-') for (; arg[0] && arg[1]; arg += 2) {
			unsigned v; sscanf(arg, "%2x", &v); k->b[k->n++] = v;
		}
		return;
	}
	if (!strcmp(cmd, "autoobs")) { snprintf(autoobs, sizeof autoobs, "%s", *arg == '-' ? "" : arg); return; }
	if (!strcmp(cmd, "recset"))  { snprintf(rec_sets[rec_sets_n++], 256, "%s", arg); return; }
	if (!strcmp(cmd, "recobs"))  { snprintf(rec_obs, sizeof rec_obs, "%s", arg); return; }
	if (!strcmp(cmd, "recdepth")) { sscanf(arg, "%d %d", &rec_depth, &rec_svc); return; }
	if (!strcmp(cmd, "probe")) {
		sscanf(arg, "%" SCNu64 " %d %u %u", &probe_id, &probe_k, &probe_t, &probe_size);
		return;
	}
	if (!strcmp(cmd, "crash")) { // crash on|off torn power every seed max
		char o[8]; int torn = 0, power = 0, every = 1, mx = 4000; unsigned seed = 1;
		sscanf(arg, "%7s %d %d %d %u %d", o, &torn, &power, &every, &seed, &mx);
		wrap.snap_on = !strcmp(o, "on");
		wrap.armed = wrap.snap_on;
		wrap.snap_torn = torn; wrap.snap_every = every; wrap.snap_skip = 0;
		img_power = power; img_max = mx;
		wrap.on_snap = on_snap;
		wrap_srand(seed);
		return;
	}
	if (!strcmp(cmd, "kill")) { kill_run(arg); return; }
	if (!strcmp(cmd, "end")) {
		for (int i = 0; i < 64; i++) if (curs[i].c) monotone_free(curs[i].c);
		monotone_free(env); env = NULL;
		return;
	}
	if (!strcmp(cmd, "clock")) { wrap.clock += strtoull(arg, NULL, 10); return; }
	if (!strcmp(cmd, "shorts")) { int pm = 0; unsigned seed = 1; sscanf(arg, "%d %u", &pm, &seed); wrap_shorts(pm, seed); return; }
	if (!strcmp(cmd, "synced")) { wrap_sync_mark_all(ddir); return; }
	if (!strcmp(cmd, "fault")) { // fault <kinds> <skip> <left> <errno> <short> [match]
		wrap.fault_match[0] = 0;
		sscanf(arg, "%u %d %d %d %d %127s", &wrap.fault_kinds, &wrap.fault_skip,
		       &wrap.fault_left, &wrap.fault_errno, &wrap.fault_short, wrap.fault_match);
		wrap.fault_hits = 0;
		wrap.armed = 1;
		return;
	}
	if (!strcmp(cmd, "usleep")) { usleep(atoi(arg)); return; }

	line_no++;
	fprintf(out, "{\"begin\":%d}\n", line_no);
	fflush(out);

	if (!strcmp(cmd, "nofault")) {
		fprintf(out, "{\"line\":%d,\"ok\":true,\"hits\":%d", line_no, wrap.fault_hits);
		wrap.fault_left = 0; wrap.fault_kinds = 0; wrap.armed = wrap.snap_on;
		finish();
	} else
	if (!strcmp(cmd, "init")) {
		env = monotone_init();
		fprintf(out, "{\"line\":%d,\"ok\":%s}\n", line_no, env ? "true" : "false");
	} else
	if (!strcmp(cmd, "open")) {
		int rc = monotone_open(env, ddir);
		result(rc);
		if (rc == 0) finish(); else { fprintf(out, ",\"obs\":{}}\n"); monotone_free(env); env = NULL; }
	} else
	if (!strcmp(cmd, "opendir")) { // open another directory, same environment
		char p[2600]; snprintf(p, sizeof p, "%s/%s", work, arg);
		int rc = monotone_open(env, p);
		result(rc);
		finish();
	} else
	if (!strcmp(cmd, "forkopen")) { // another process opens the same directory
		fflush(out);
		pid_t pid = fork();
		if (pid == 0) {
			int n = open("/dev/null", O_WRONLY);
			dup2(n, 1); dup2(n, 2);
			monotone_t *e = monotone_init();
			monotone_execute(e, "set workers to 0", NULL);
			_exit(monotone_open(e, ddir) == 0 ? 0 : 1);
		}
		int st;
		waitpid(pid, &st, 0);
		result(WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : -1);
		finish();
	} else
	if (!strcmp(cmd, "close")) {
		monotone_free(env); env = NULL;
		fprintf(out, "{\"line\":%d,\"ok\":true,\"obs\":{}}\n", line_no);
	} else
	if (!strcmp(cmd, "q")) {
		char *r = NULL;
		int rc = monotone_execute(env, arg, &r);
		result(rc);
		if (rc == 0 && r && (*r == '{' || *r == '[')) { fprintf(out, ",\"ret\":"); jraw(out, r); }
		else if (rc == 0 && r) { fprintf(out, ",\"ret\":"); jstr(out, r); }
		free(r);
		finish();
	} else
	if (!strcmp(cmd, "svc")) {
		int cnt = atoi(arg), rc = 0;
		for (int i = 0; i < cnt; i++) rc |= monotone_execute(env, "service", NULL);
		result(rc);
		finish();
	} else
	if (!strcmp(cmd, "w")) {
		int t = tokenize(arg);
		int cnt = atoi(toks[0]);
		if (t < 1 + cnt * 5) abort();
		monotone_event_t *ev = calloc(cnt + 1, sizeof *ev);
		for (int i = 0; i < cnt; i++) parse_event(&ev[i], &toks[1 + i * 5]);
		int rc = monotone_write(env, ev, cnt);
		result(rc);
		fprintf(out, ",\"ids\":[");
		for (int i = 0; i < cnt && i < 64; i++) fprintf(out, "%s%" PRIu64, i ? "," : "", ev[i].id);
		fprintf(out, "]");
		for (int i = 0; i < cnt; i++) free(ev[i].value);
		free(ev);
		finish();
	} else
	if (!strcmp(cmd, "scan")) { // scan [id k]
		int t = tokenize(arg);
		monotone_event_t key = { 0 };
		if (t >= 2) {
			key.id = strtoull(toks[0], NULL, 10);
			int k = atoi(toks[1]);
			key.key = keys[k].b; key.key_size = keys[k].n;
		}
		fprintf(out, "{\"line\":%d,\"ok\":true,\"ret\":", line_no);
		scan(out, env, t >= 2 ? &key : NULL);
		finish();
	} else
	if (!strcmp(cmd, "curopen")) {
		int t = tokenize(arg);
		monotone_event_t key = { 0 };
		if (t >= 3) {
			key.id = strtoull(toks[1], NULL, 10);
			int k = atoi(toks[2]);
			key.key = keys[k].b; key.key_size = keys[k].n;
		}
		monotone_cursor_t **c = cur_slot(toks[0]);
		*c = monotone_cursor(env, NULL, t >= 3 ? &key : NULL);
		result(*c ? 0 : -1);
		finish();
	} else
	if (!strcmp(cmd, "curread")) {
		tokenize(arg);
		monotone_event_t e;
		int rc = monotone_read(*cur_slot(toks[0]), &e);
		fprintf(out, "{\"line\":%d,\"ok\":%s,\"rc\":%d,\"ret\":[", line_no, rc < 0 ? "false" : "true", rc);
		if (rc == 1) emit_event(out, &e, 1);
		fprintf(out, "]");
		finish();
	} else
	if (!strcmp(cmd, "curnext")) { // next, then read
		tokenize(arg);
		monotone_event_t e;
		monotone_cursor_t *c = *cur_slot(toks[0]);
		int rc = monotone_next(c);
		fprintf(out, "{\"line\":%d,\"ok\":%s,\"rc\":%d,\"ret\":[", line_no, rc < 0 ? "false" : "true", rc);
		if (rc == 1 && monotone_read(c, &e) == 1) emit_event(out, &e, 1);
		fprintf(out, "]");
		finish();
	} else
	if (!strcmp(cmd, "curclose")) {
		tokenize(arg);
		monotone_cursor_t **c = cur_slot(toks[0]);
		if (*c) monotone_free(*c);
		*c = NULL;
		result(0);
		finish();
	} else
	if (!strcmp(cmd, "damage")) { damage(arg); } else
	if (!strcmp(cmd, "ls")) {
		fprintf(out, "{\"line\":%d,\"ok\":true,", line_no);
		observe(out, NULL, "f", ddir);
		fprintf(out, "}\n");
	} else
	if (!strcmp(cmd, "grep")) { // grep <hex>: partition files containing the bytes
		uint8_t b[256]; int n = 0;
		for (; arg[0] && arg[1] && n < 256; arg += 2) { unsigned v; sscanf(arg, "%2x", &v); b[n++] = v; }
		fprintf(out, "{\"line\":%d,\"ok\":true,\"hits\":%d", line_no, grep_rec(ddir, b, n));
		finish();
	} else
	if (!strcmp(cmd, "threads")) {
		run_threads(arg);
	} else
	if (!strcmp(cmd, "drain")) {
		run_drain();
		result(0);
		finish();
	} else {
		fprintf(stderr, "unknown command %s\n", cmd);
		exit(3);
	}
	fflush(out);
}

// Statements of one client come from two threads in turn (one at a time): locks of the library belong to threads,
// what one statement leaves locked stops another thread only.  Cursors stay with the thread which opened them.
#ifdef MDRV_THREADS
static void run_turn(char *s) { run_line(s); }
#else
static pthread_mutex_t turn_lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t turn_cond = PTHREAD_COND_INITIALIZER;
static char *turn_line;
static int turn_other;
static void *turn_main(void *a)
{
	(void)a;
	pthread_mutex_lock(&turn_lock);
	for (;;) {
		while (!turn_line) pthread_cond_wait(&turn_cond, &turn_lock);
		run_line(turn_line);
		turn_line = NULL;
		pthread_cond_broadcast(&turn_cond);
	}
	return NULL;
}
static void run_turn(char *s)
{
	static int started;
	int open = 0;
	for (int i = 0; i < 64; i++) open |= curs[i].c != NULL;
	if (!open) turn_other = ((line_no + 1) * 2654435761u >> 15) & 1;
	if (!turn_other) { run_line(s); return; }
	pthread_mutex_lock(&turn_lock);
	if (!started) {
		pthread_t id;
		started = 1;
		if (pthread_create(&id, NULL, turn_main, NULL)) abort();
	}
	turn_line = s;
	pthread_cond_broadcast(&turn_cond);
	while (turn_line) pthread_cond_wait(&turn_cond, &turn_lock);
	pthread_mutex_unlock(&turn_lock);
}
#endif

FILE *script_file;
static void run_script(const char *path)
{
	FILE *f = fopen(path, "r");
	if (!f) { perror(path); exit(3); }
	script_file = f;
	char op[2048]; snprintf(op, sizeof op, "%s.out", path);
	out = fopen(op, "w");
	char *s = NULL; size_t cap = 0; ssize_t n;
	while ((n = getline(&s, &cap, f)) > 0) {
		while (n && (s[n-1] == '\n' || s[n-1] == '\r')) s[--n] = 0;
		if (!n || *s == '#') continue;
		run_turn(s);
	}
	wrap.armed = 0; wrap.snap_on = 0;
	char last[] = "end";
	if (env) run_turn(last);
	recover_all();
	fprintf(out, "{\"done\":true,\"calls\":%" PRIu64 "}\n", wrap.count);
	fclose(out);
	free(s);
	fclose(f);
}

int main(int argc, char **argv)
{
	if (argc < 3) return 2;
	int tmo = getenv("MDRV_TIMEOUT") ? atoi(getenv("MDRV_TIMEOUT")) : 60;
	int rc = 0;
	for (int i = 2; i < argc; i++) {
		snprintf(work, sizeof work, "%s/mnverif.%d.%d", argv[1], (int)getpid(), i);
		wrap_mkdir(work);
		snprintf(ddir, sizeof ddir, "%s/db", work);
		fflush(NULL);
		pid_t pid = fork();
		if (pid == 0) {
			snprintf(wrap.dir, sizeof wrap.dir, "%s", ddir);
			struct rlimit rl = { 0, 0 };
			setrlimit(RLIMIT_CORE, &rl);
			alarm(tmo);
			wrap.clock = 1000000000000000ull; wrap.clock_on = 1;
			run_script(argv[i]);
			fflush(NULL);
			_exit(0);
		}
		int st;
		waitpid(pid, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) {
			char op[2048]; snprintf(op, sizeof op, "%s.out", argv[i]);
			FILE *f = fopen(op, "a");
			fprintf(f, "\n{\"died\":true,\"sig\":%d,\"code\":%d}\n",
			        WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : -1);
			fclose(f);
			if (WIFEXITED(st) && WEXITSTATUS(st) == 3) rc = 3;
		}
		if (!getenv("MDRV_KEEP")) wrap_remove_tree(work);
	}
	return rc;
}
