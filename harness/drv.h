#pragma once
#include <stdio.h>
#include <stdint.h>
#include <monotone.h>
struct key { uint8_t b[1024]; int n; };
extern struct key keys[];
extern int keys_n;
extern FILE *out, *script_file;
extern monotone_t *env;
extern int line_no;
extern char work[], ddir[];
uint8_t *val_make(uint32_t t, uint32_t size);
long val_token(const uint8_t *v, size_t n);
int  key_index(const uint8_t *k, size_t n);
void jstr(FILE *f, const char *s);
void jraw(FILE *f, const char *s);
void emit_event(FILE *f, monotone_event_t *e, int first);
void scan(FILE *f, monotone_t *e, monotone_event_t *key);
void observe(FILE *f, monotone_t *e, const char *mask, const char *dir);
void run_threads(char *arg);
void run_drain(void);
extern int hist_pos;
