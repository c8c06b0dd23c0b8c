// The part of the CUDA (or, with EMU_HIP, the HIP) language and runtime interface that the emulated
// device offers. There is no GPU and no vendor header here: clang compiles the device code with this
// interface, and emu.cpp implements it on the CPU.
#pragma once
#define EMU_CAT2( a, b ) a##b
#define EMU_CAT( a, b ) EMU_CAT2( a, b )
#ifdef EMU_HIP
#define E( x ) EMU_CAT( hip, x )
#define E__( x ) EMU_CAT( __hip, x )
#else
#define E( x ) EMU_CAT( cuda, x )
#define E__( x ) EMU_CAT( __cuda, x )
#endif
#if defined( __CUDA__ ) || defined( __HIP__ )
#define EMU_DEVICE_CODE
#define __host__ __attribute__((host))
#define __device__ __attribute__((device))
#define __global__ __attribute__((global))
#define __shared__ __attribute__((shared))
#define __constant__ __attribute__((constant))
#define __forceinline__ __inline__ __attribute__((always_inline))
#define __launch_bounds__( ... )
#else
#define __host__
#define __device__
#define __forceinline__ inline
#endif
struct dim3 { unsigned x, y, z; __host__ __device__ constexpr dim3( unsigned a = 1, unsigned b = 1, unsigned c = 1 ): x( a ), y( b ), z( c ) {} };
enum E( Error_t ) { E( Success ) = 0, E( ErrorInvalidValue ) = 1, E( ErrorMemoryAllocation ) = 2, E( ErrorInvalidConfiguration ) = 9, E( ErrorInvalidDevicePointer ) = 17,
  E( ErrorInvalidMemcpyDirection ) = 21, E( ErrorNoDevice ) = 100, E( ErrorNoKernelImageForDevice ) = 209, E( ErrorIllegalAddress ) = 700, E( ErrorLaunchFailure ) = 719, E( ErrorUnknown ) = 999 };
#ifdef EMU_HIP
enum { hipErrorOutOfMemory = 2 };
typedef struct emu_stream * hipStream_t; typedef struct emu_event * hipEvent_t;
#define EMU_ERROR hipError_t
#define EMU_STREAM hipStream_t
#define EMU_EVENT hipEvent_t
#define EMU_KIND hipMemcpyKind
#else
typedef cudaError_t cudaError;
typedef struct emu_stream * cudaStream_t; typedef struct emu_event * cudaEvent_t;
#define EMU_ERROR cudaError_t
#define EMU_STREAM cudaStream_t
#define EMU_EVENT cudaEvent_t
#define EMU_KIND cudaMemcpyKind
#endif
enum EMU_KIND { E( MemcpyHostToHost ) = 0, E( MemcpyHostToDevice ) = 1, E( MemcpyDeviceToHost ) = 2, E( MemcpyDeviceToDevice ) = 3, E( MemcpyDefault ) = 4 };
enum { E( MemAttachGlobal ) = 1, E( HostAllocDefault ) = 0, E( HostMallocDefault ) = 0, E( StreamDefault ) = 0 };
extern "C" {
__host__ EMU_ERROR E( Malloc )( void ** p, __SIZE_TYPE__ n );
__host__ EMU_ERROR E( MallocManaged )( void ** p, __SIZE_TYPE__ n, unsigned flags = 1 );
__host__ EMU_ERROR E( Free )( void * p );
__host__ EMU_ERROR E( MallocHost )( void ** p, __SIZE_TYPE__ n );
__host__ EMU_ERROR E( HostMalloc )( void ** p, __SIZE_TYPE__ n, unsigned flags = 0 );
__host__ EMU_ERROR E( FreeHost )( void * p );
__host__ EMU_ERROR E( HostFree )( void * p );
__host__ EMU_ERROR E( Memcpy )( void * d, void const * s, __SIZE_TYPE__ n, EMU_KIND k );
__host__ EMU_ERROR E( MemcpyAsync )( void * d, void const * s, __SIZE_TYPE__ n, EMU_KIND k, EMU_STREAM st = nullptr );
__host__ EMU_ERROR E( Memset )( void * d, int v, __SIZE_TYPE__ n );
__host__ EMU_ERROR E( MemsetAsync )( void * d, int v, __SIZE_TYPE__ n, EMU_STREAM st = nullptr );
__host__ EMU_ERROR E( DeviceSynchronize )();
__host__ EMU_ERROR E( StreamCreate )( EMU_STREAM * st );
__host__ EMU_ERROR E( StreamDestroy )( EMU_STREAM st );
__host__ EMU_ERROR E( StreamSynchronize )( EMU_STREAM st );
__host__ EMU_ERROR E( EventCreate )( EMU_EVENT * e );
__host__ EMU_ERROR E( EventDestroy )( EMU_EVENT e );
__host__ EMU_ERROR E( EventRecord )( EMU_EVENT e, EMU_STREAM st = nullptr );
__host__ EMU_ERROR E( EventSynchronize )( EMU_EVENT e );
__host__ EMU_ERROR E( GetLastError )();
__host__ EMU_ERROR E( PeekAtLastError )();
__host__ char const * E( GetErrorString )( EMU_ERROR e );
__host__ char const * E( GetErrorName )( EMU_ERROR e );
__host__ EMU_ERROR E( GetDevice )( int * d );
__host__ EMU_ERROR E( SetDevice )( int d );
__host__ EMU_ERROR E( GetDeviceCount )( int * n );
__host__ EMU_ERROR E( DeviceReset )();
__host__ EMU_ERROR E( LaunchKernel )( void const * f, dim3 g, dim3 b, void ** args, __SIZE_TYPE__ sh, EMU_STREAM st );
__host__ unsigned E__( PushCallConfiguration )( dim3 g, dim3 b, __SIZE_TYPE__ sh = 0, EMU_STREAM st = nullptr );
__host__ EMU_ERROR E__( PopCallConfiguration )( dim3 * g, dim3 * b, __SIZE_TYPE__ * sh, void * st );
}
template< typename T > __host__ inline EMU_ERROR E( Malloc )( T ** p, __SIZE_TYPE__ n ) { return E( Malloc )( reinterpret_cast< void ** >( p ), n ); }
template< typename T > __host__ inline EMU_ERROR E( MallocManaged )( T ** p, __SIZE_TYPE__ n, unsigned f = 1 ) { return E( MallocManaged )( reinterpret_cast< void ** >( p ), n, f ); }
template< typename T > __host__ inline EMU_ERROR E( MallocHost )( T ** p, __SIZE_TYPE__ n ) { return E( MallocHost )( reinterpret_cast< void ** >( p ), n ); }
template< typename T > __host__ inline EMU_ERROR E( HostMalloc )( T ** p, __SIZE_TYPE__ n, unsigned f = 0 ) { return E( HostMalloc )( reinterpret_cast< void ** >( p ), n, f ); }

// printf in a kernel: the arguments, each with a tag
struct EmuArg { char tag; union { long long i; double d; void const * p; }; };
#ifdef EMU_DEVICE_CODE
extern "C" __device__ int emu_printf( char const * f, int n, EmuArg const * a );
extern "C" __device__ unsigned emu_sreg( int which );
template< typename T > __device__ inline EmuArg emu_arg( T const & x )
{
  EmuArg a{};
  if constexpr ( __is_same( T, float ) || __is_same( T, double ) || __is_same( T, long double ) ) { a.tag = 'd'; a.d = double( x ); }
  else if constexpr ( __is_pointer( T ) ) { a.tag = 'p'; a.p = x; }
  else { a.tag = 'i'; a.i = static_cast< long long >( x ); }
  return a;
}
template< typename ... A > __device__ inline int printf( char const * f, A ... a )
{
  EmuArg const args[sizeof...( A ) + 1] = { emu_arg( a ) ..., EmuArg{} };
  return emu_printf( f, int( sizeof...( A ) ), args );
}
__device__ inline void __trap() { __builtin_trap(); }
__device__ inline void __threadfence() {}
__device__ inline dim3 emu_dim( int k ) { return dim3( emu_sreg( k ), emu_sreg( k + 1 ), emu_sreg( k + 2 ) ); }
#define threadIdx ( emu_dim( 0 ) )
#define blockIdx ( emu_dim( 3 ) )
#define blockDim ( emu_dim( 6 ) )
#define gridDim ( emu_dim( 9 ) )
__device__ inline double sqrt( double x ) { return __builtin_elementwise_sqrt( x ); }
__device__ inline float sqrtf( float x ) { return __builtin_elementwise_sqrt( x ); }
__device__ inline double fabs( double x ) { return __builtin_elementwise_abs( x ); }
__device__ inline float fabsf( float x ) { return __builtin_elementwise_abs( x ); }
__device__ inline double fmin( double x, double y ) { return __builtin_elementwise_min( x, y ); }
__device__ inline double fmax( double x, double y ) { return __builtin_elementwise_max( x, y ); }
#endif
#undef E
#undef E__
