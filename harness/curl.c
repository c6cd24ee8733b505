// libcurl's easy interface as far as monotone uses it, and behind it an object
// store which follows the S3 protocol and keeps the objects in the directory of
// the database: <database>/s3/<bucket>/<key>. So the objects take part in the
// crash images, and the calls below are operations which can fail, or after
// which the process can die, like every other file operation.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <time.h>
#include <sys/stat.h>
#include <openssl/hmac.h>
#include <openssl/evp.h>
#include <curl/curl.h>
#include "wrap.h"

#undef curl_easy_setopt
#undef curl_easy_getinfo

// called directly: not operations of their own
int __real_open(const char *, int, ...);
int __real_close(int);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_pread(int, void *, size_t, off_t);
int __real_unlink(const char *);
int __real_mkdir(const char *, mode_t);

struct fake
{
	char *method, *url, *range;
	int   upload, nobody, failonerror;
	int64_t insize;
	size_t (*on_read)(char *, size_t, size_t, void *);
	size_t (*on_write)(char *, size_t, size_t, void *);
	void *rarg, *warg;
	struct curl_slist *headers;
	long  code;
};

static unsigned tmp_seq;

CURL *curl_easy_init(void) { return (CURL *)calloc(1, sizeof(struct fake)); }
void curl_easy_reset(CURL *c)
{
	struct fake *f = (struct fake *)c;
	free(f->method); free(f->url); free(f->range);
	memset(f, 0, sizeof *f);
}
void curl_easy_cleanup(CURL *c) { if (c) { curl_easy_reset(c); free(c); } }
const char *curl_easy_strerror(CURLcode c) { static char *t = "request failed"; (void)c; return t; }

static void set(char **p, const char *v) { free(*p); *p = v ? strdup(v) : NULL; }
CURLcode curl_easy_setopt(CURL *c, CURLoption o, ...)
{
	struct fake *f = (struct fake *)c;
	va_list a; va_start(a, o);
	long n = 0; void *p = NULL; curl_off_t q = 0;
	if (o >= CURLOPTTYPE_OFF_T && o < CURLOPTTYPE_OFF_T + 10000) q = va_arg(a, curl_off_t);
	else if (o >= CURLOPTTYPE_OBJECTPOINT) p = va_arg(a, void *);
	else n = va_arg(a, long);
	va_end(a);
	switch (o) {
	case CURLOPT_CUSTOMREQUEST:    set(&f->method, p); break;
	case CURLOPT_URL:              set(&f->url, p); break;
	case CURLOPT_RANGE:            set(&f->range, p); break;
	case CURLOPT_UPLOAD: case CURLOPT_PUT: f->upload = n != 0; break;
	case CURLOPT_NOBODY:           f->nobody = n != 0; break;
	case CURLOPT_FAILONERROR:      f->failonerror = n != 0; break;
	case CURLOPT_INFILESIZE:       f->insize = n; break;
	case CURLOPT_INFILESIZE_LARGE: f->insize = q; break;
	case CURLOPT_READFUNCTION:     f->on_read = p; break;
	case CURLOPT_READDATA:         f->rarg = p; break;
	case CURLOPT_WRITEFUNCTION:    f->on_write = p; break;
	case CURLOPT_WRITEDATA:        f->warg = p; break;
	case CURLOPT_HTTPHEADER:       f->headers = p; break;
	default: break;
	}
	return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL *c, CURLINFO i, ...)
{
	struct fake *f = (struct fake *)c;
	va_list a; va_start(a, i);
	void *p = va_arg(a, void *);
	va_end(a);
	if (i == CURLINFO_RESPONSE_CODE) *(long *)p = f->code;
	return CURLE_OK;
}

static const char *header(struct fake *f, const char *name)
{
	size_t n = strlen(name);
	for (struct curl_slist *h = f->headers; h; h = h->next)
		if (!strncasecmp(h->data, name, n) && h->data[n] == ':') {
			const char *v = h->data + n + 1;
			while (*v == ' ') v++;
			return v;
		}
	return NULL;
}

// signature of the request (AWS signature version 2, the secret is "sk")
static int authorized(struct fake *f, const char *method, const char *path)
{
	const char *a = header(f, "Authorization"), *d = header(f, "Date"), *t = header(f, "Content-Type");
	struct tm tm;
	if (!a || !d || strncmp(a, "AWS ", 4) || !strptime(d, "%a, %d %b %Y %H:%M:%S GMT", &tm)) return 0;
	const char *s = strrchr(a, ':');
	if (!s || s == a + 4) return 0;
	char text[2048]; unsigned char raw[64], b64[128]; unsigned n = 0;
	snprintf(text, sizeof text, "%s\n\n%s\n%s\n%s", method, t ? t : "", d, path);
	HMAC(EVP_sha1(), "sk", 2, (unsigned char *)text, strlen(text), raw, &n);
	EVP_EncodeBlock(b64, raw, n);
	return !strcmp(s + 1, (char *)b64);
}

// delivers the body to the caller
static CURLcode deliver(struct fake *f, const char *b, size_t n, size_t upto)
{
	size_t at = 0;
	while (at < upto) {
		size_t k = at == 0 && n > 3 ? 3 : n - at < 16384 ? n - at : 16384;
		if (k > upto - at) k = upto - at;
		if (f->on_write && f->on_write((char *)b + at, 1, k, f->warg) != k) return CURLE_WRITE_ERROR;
		at += k;
	}
	return upto < n ? CURLE_PARTIAL_FILE : CURLE_OK;
}

static CURLcode answer(struct fake *f, long code)
{
	f->code = code;
	if (code < 400) return CURLE_OK;
	if (f->failonerror) return CURLE_HTTP_RETURNED_ERROR;
	const char *e = "<Error><Code>Failed</Code></Error>";
	return deliver(f, e, strlen(e), strlen(e));
}

CURLcode curl_easy_perform(CURL *c)
{
	struct fake *f = (struct fake *)c;
	f->code = 0;
	const char *method = f->method ? f->method : f->nobody ? "HEAD" : f->upload ? "PUT" : "GET";
	// scenarios change the address of a cloud: there is one store behind all of them
	const char *path = f->url ? strstr(f->url, "://") : NULL;
	path = f->url ? strchr(path ? path + 3 : f->url, '/') : NULL;
	if (!path || !wrap.dir[0]) return CURLE_URL_MALFORMAT;
	char bucket[256] = "", key[256] = "";
	if (sscanf(path, "/%255[^/]/%255[^/]", bucket, key) < 1 || bucket[0] == '.' || key[0] == '.') return answer(f, 400);
	// the request
	char *body = NULL; size_t size = 0;
	const char *cl = header(f, "Content-Length");
	if (f->upload) {
		if (cl && strtoll(cl, NULL, 10) != f->insize) return answer(f, 400);
		body = malloc(f->insize + 65536);
		while ((int64_t)size < f->insize) {
			size_t k = size ? 5000 : 70, r = f->on_read ? f->on_read(body + size, 1, k, f->rarg) : 0;
			if (r > k) { free(body); return CURLE_ABORTED_BY_CALLBACK; }
			if (r == 0) { free(body); return CURLE_PARTIAL_FILE; }
			size += r;
		}
		size = f->insize;
	}
	if (!authorized(f, method, path)) { free(body); return answer(f, 403); }
	// the store
	char base[1100], bp[1400], kp[1700], tp[1200];
	snprintf(base, sizeof base, "%s/s3", wrap.dir);
	snprintf(bp, sizeof bp, "%s/%s", base, bucket);
	snprintf(kp, sizeof kp, "%s/%s", bp, key);
	struct stat st;
	int hasb = !stat(bp, &st);
	CURLcode rc;
	if (!strcmp(method, "PUT") && !key[0]) {
		__real_mkdir(base, 0755);
		rc = hasb ? answer(f, 200) : answer(f, mkdir(bp, 0755) ? 500 : 200);
	} else if (!hasb) {
		rc = answer(f, 404);
	} else if (!strcmp(method, "DELETE") && !key[0]) {
		rc = answer(f, rmdir(bp) == 0 ? 204 : errno == ENOTEMPTY || errno == EEXIST ? 409 : 500);
	} else if (!key[0]) {
		rc = answer(f, 405);
	} else if (!strcmp(method, "PUT")) {
		snprintf(tp, sizeof tp, "%s/.tmp", base);
		__real_mkdir(tp, 0755);
		snprintf(tp, sizeof tp, "%s/.tmp/%u", base, __atomic_add_fetch(&tmp_seq, 1, __ATOMIC_RELAXED));
		int fd = __real_open(tp, O_CREAT|O_TRUNC|O_WRONLY, 0644), bad = fd < 0;
		for (size_t at = 0; !bad && at < size; ) {
			ssize_t w = __real_write(fd, body + at, size - at);
			if (w <= 0) bad = 1; else at += w;
		}
		if (fd >= 0) __real_close(fd);
		wrap_stable(tp);
		if (!bad && rename(tp, kp)) bad = 1;
		if (bad) __real_unlink(tp);
		rc = answer(f, bad ? 500 : 200);
	} else if (!strcmp(method, "DELETE")) {
		rc = answer(f, unlink(kp) == 0 || errno == ENOENT ? 204 : 500);
	} else if (!strcmp(method, "GET") || !strcmp(method, "HEAD")) {
		int fd = open(kp, O_RDONLY);
		if (fd < 0) rc = answer(f, errno == ENOENT ? 404 : 500);
		else {
			fstat(fd, &st);
			char *b = malloc(st.st_size + 1); size_t n = 0;
			for (ssize_t r; n < (size_t)st.st_size && (r = __real_pread(fd, b + n, st.st_size - n, n)) > 0; ) n += r;
			close(fd);
			const char *range = f->range ? f->range : header(f, "Range");
			if (range && !strncmp(range, "bytes=", 6)) range += 6;
			uint64_t lo = 0, hi = n ? n - 1 : 0; int part = 0;
			if (range && sscanf(range, "%lu-%lu", &lo, &hi) >= 1) part = 1;
			if (part && (lo >= n || hi < lo)) rc = answer(f, 416);
			else if (!strcmp(method, "HEAD")) rc = answer(f, 200);
			else {
				if (hi >= n) hi = n - 1;
				size_t len = n ? hi - lo + 1 : 0;
				f->code = part ? 206 : 200;
				rc = deliver(f, b + lo, len, len);
			}
			free(b);
		}
	} else rc = answer(f, 405);
	free(body);
	return rc;
}
