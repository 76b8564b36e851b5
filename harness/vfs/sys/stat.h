#pragma once
#include_next <sys/stat.h>
extern "C" int vfs_mkdir(const char *path, unsigned mode);
#define mkdir(p, m) vfs_mkdir(p, m)
