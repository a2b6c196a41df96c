prop='X02'
edits=[('src/common/synchronization.cc','''  active_readers_--;
  if (active_readers_ == 0) {''','''  active_readers_--;
  if (active_readers_ == 0 && waiting_writers_ <= 1) {''')]
needs='two writers already waiting when the last reader leaves'
what='nobody is woken: both writers and every later reader hang'
srcs=['src/common/synchronization.cc']
demo='''
#include "common/synchronization.h"
#include <cstdio>
#include <thread>
#include <atomic>
using namespace dingodb;
int main() {
  RWLock* l = new RWLock;
  std::atomic<int> in{0};
  l->LockRead();
  for (int i = 0; i < 3; ++i) std::thread([&, l] { l->LockWrite(); ++in; l->UnlockWrite(); }).detach();
  usleep(400000);
  if (in != 0) { puts("writer beside reader"); _exit(1); }
  l->UnlockRead();
  for (int i = 0; i < 50 && in < 3; ++i) usleep(50000);
  if (in != 3) { puts("lost wake-up"); _exit(1); }
  _exit(0);
}
'''
