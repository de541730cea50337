// All standard headers first; then the system calls of the library's own sources are replaced by the model of the harness.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <signal.h>
#include <unistd.h>
int host_pipe(int* fds); int host_pipe2(int* fds, int flags); int host_close(int fd); ssize_t host_read(int fd, void* p, size_t n); ssize_t host_write(int fd, const void* p, size_t n);
#define pipe host_pipe
#define pipe2 host_pipe2
#define close host_close
#define read host_read
#define write host_write
