// Model of buffered files in one file system tree, and of abort.
#pragma once
#include "core.h"
#include <stdio.h>
#include <sys/types.h>
struct KFile { bool open, err; int id; };            // an open stream
struct KNode { char name[160]; bool exists, dir; unsigned mode; int opens; uint64_t size, flushed; }; // a file or directory; size counts the bytes accepted, flushed those handed to the system
enum { K_STREAMS = 24, K_NODES = 24 };
extern KFile k_file[K_STREAMS]; extern KNode k_node[K_NODES]; extern int k_nfile, k_nnode, k_nopen;
extern size_t (*k_fwrite_hook)(int node, const void *, size_t); // how many bytes the stream takes; errno set when it is less (0: no error indicated)
extern void (*k_remove_hook)(int node, const char *name); extern void (*k_opened_hook)(int node); extern void (*k_closed_hook)(int node); extern void (*k_flushed_hook)(int node);
extern int (*k_mkdir_hook)(const char *);           // errno of mkdir
extern bool k_root; extern const char *k_hostname; extern int k_pid;
extern void (*k_abort_hook)();                       // called instead of abort()
int k_find(const char *name); int k_add(const char *name, bool dir, unsigned mode);
extern long ks_tz; extern int ks_localtime_errno;   // seconds east of UTC; what localtime leaves in errno
