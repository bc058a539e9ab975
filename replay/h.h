// Shared parts of the replay harnesses: random inputs, a virtual file system and mocks of the calls that leave the process.
#ifndef H_H
#define H_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <ctype.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>

extern const char *PROP;
uint64_t rn(void);
long rnd(long n);                                // 0..n-1
long pick(const long *v, int n);
#define PICK(...) ({ static const long v_[] = {__VA_ARGS__}; pick(v_, sizeof v_ / sizeof *v_); })
#define ONEOF(...) ({ static const char *v_[] = {__VA_ARGS__}; (char *)v_[rnd(sizeof v_ / sizeof *v_)]; })
char *rstr(char *out, long len, const char *alphabet);  // exactly len characters
char *hstr(const char *s);                        // copy in a block of exactly its size
char *hmem(const char *s, long n);
bool later(void);                                // time is up
void doing(const char *fmt, ...);               // what is being executed, for reports
void doingmore(const char *fmt, ...);
const char *esc(const char *s, long n);         // printable
const char *esz(const char *s);
void fail(const char *fmt, ...);
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

// virtual files
typedef struct { char name[1200]; char real[300]; bool dir, used, made; } vfile;
extern vfile vfs[256];
extern int nvfs;
extern bool vall;                                // every file name exists
void vreset(void);
vfile *vfind(const char *name);
void vput(const char *name, const char *data, long n);
void vdir(const char *name);
char *vread(vfile *f, long *n);
extern char opened[64][1200];
extern char openmode[64][8];
extern int nopened;
extern char removed[16][1200];
extern int nremoved;

// virtual network
extern char *net_in;
extern long net_inlen, net_inpos;
extern char *net_out;
extern long net_outlen;
extern int net_fd, net_closed, net_sent_after_close, net_wrong_fd;
extern char peer[32];
void netreset(int fd, const char *in, long n);
extern int locks;
extern bool jitter;
#endif
