#pragma once
#define VECMEM_HIP_EXPORT
#define VECMEM_HIP_NO_EXPORT
