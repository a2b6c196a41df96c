#pragma once
#define BAIDU_LIKELY(x) (x)
#define BAIDU_UNLIKELY(x) (x)
#define FALLTHROUGH_INTENDED
