#pragma once
#define VECMEM_CUDA_EXPORT
#define VECMEM_CUDA_NO_EXPORT
