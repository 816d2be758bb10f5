#ifndef VERIF_CAPTURE_H
#define VERIF_CAPTURE_H
// What is written to stderr while the object lives.
#include <cstdio>
#include <cstdlib>
#include <string>
class Capture {
public:
  Capture(): mOld(stderr), mBuf(0), mSize(0) {mFile = open_memstream(&mBuf, &mSize); stderr = mFile;}
  ~Capture() {stop(); free(mBuf);}
  std::string stop() {
    if (mFile) {
      stderr = mOld;
      fclose(mFile);
      mFile = 0;
      mText.assign(mBuf, mSize);
    }
    return mText;
  }
private:
  FILE* mOld; FILE* mFile; char* mBuf; size_t mSize; std::string mText;
};
#endif
