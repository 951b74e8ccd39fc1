// Stand-in for the Windows SDK header: the functions end in the simulator (win_checks.cpp).
#pragma once
#include <ctype.h>
#include <stdint.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct W_Wnd* HWND; typedef struct W_Dc* HDC; typedef struct W_Bmp* HBITMAP; typedef void* HGDIOBJ; typedef void* HINSTANCE; typedef void* HMODULE; typedef void* HICON; typedef void* HCURSOR; typedef void* HBRUSH; typedef void* HMENU; typedef void* HANDLE; typedef void* LPVOID;
typedef uint32_t DWORD; typedef uint16_t WORD; typedef uint8_t BYTE; typedef int BOOL; typedef unsigned UINT; typedef int32_t LONG; typedef uint64_t ULONGLONG; typedef int64_t LONGLONG; typedef uint16_t ATOM; typedef const char* LPCSTR; typedef const char* LPCTSTR; typedef char TCHAR;
typedef uintptr_t WPARAM; typedef intptr_t LPARAM; typedef intptr_t LRESULT; typedef unsigned char UCHAR; typedef uint32_t COLORREF; typedef uint64_t DWORD64; typedef unsigned long ULONG_; typedef uintptr_t DWORD_PTR;
#define CALLBACK
#define WINAPI
#define APIENTRY
#define TRUE 1
#define FALSE 0
#define TEXT(s) s
#define _T(s) s
typedef LRESULT (*WNDPROC)(HWND, UINT, WPARAM, LPARAM);
typedef struct tagPOINT { LONG x, y; } POINT;
typedef struct tagRECT { LONG left, top, right, bottom; } RECT, *LPRECT;
typedef struct tagMSG { HWND hwnd; UINT message; WPARAM wParam; LPARAM lParam; DWORD time; POINT pt; } MSG;
typedef struct { UINT style; WNDPROC lpfnWndProc; int cbClsExtra, cbWndExtra; HINSTANCE hInstance; HICON hIcon; HCURSOR hCursor; HBRUSH hbrBackground; LPCSTR lpszMenuName, lpszClassName; } WNDCLASS, WNDCLASSA;
typedef struct { HDC hdc; BOOL fErase; RECT rcPaint; BOOL fRestore, fIncUpdate; BYTE rgbReserved[32]; } PAINTSTRUCT;
typedef struct { BYTE rgbBlue, rgbGreen, rgbRed, rgbReserved; } RGBQUAD;
typedef struct { DWORD biSize; LONG biWidth, biHeight; WORD biPlanes, biBitCount; DWORD biCompression, biSizeImage; LONG biXPelsPerMeter, biYPelsPerMeter; DWORD biClrUsed, biClrImportant; } BITMAPINFOHEADER;
typedef struct { BITMAPINFOHEADER bmiHeader; RGBQUAD bmiColors[1]; } BITMAPINFO;
typedef union { struct { DWORD LowPart; LONG HighPart; }; LONGLONG QuadPart; } LARGE_INTEGER;
enum { WM_NULL = 0, WM_CREATE = 1, WM_DESTROY = 2, WM_MOVE = 3, WM_SIZE = 5, WM_ACTIVATE = 6, WM_SETFOCUS = 7, WM_KILLFOCUS = 8, WM_PAINT = 0xF, WM_CLOSE = 0x10, WM_QUIT = 0x12, WM_ERASEBKGND = 0x14, WM_SHOWWINDOW = 0x18, WM_NCDESTROY = 0x82, WM_NCPAINT = 0x85, WM_KEYDOWN = 0x100, WM_KEYUP = 0x101, WM_CHAR = 0x102, WM_DEADCHAR = 0x103, WM_SYSKEYDOWN = 0x104, WM_SYSKEYUP = 0x105, WM_SYSCHAR = 0x106, WM_SYSCOMMAND = 0x112, WM_TIMER = 0x113, WM_MOUSEMOVE = 0x200 };
enum { PM_NOREMOVE = 0, PM_REMOVE = 1 };
enum { CS_VREDRAW = 1, CS_HREDRAW = 2, CS_OWNDC = 0x20, WS_VISIBLE = 0x10000000, WS_OVERLAPPEDWINDOW = 0xCF0000, BI_RGB = 0, DIB_RGB_COLORS = 0, SW_SHOW = 5, SW_HIDE = 0, WAIT_TIMEOUT = 258, QS_ALLINPUT = 0x4FF };
#define CW_USEDEFAULT ((int)0x80000000)
#define SRCCOPY 0xCC0020u
#define INFINITE 0xFFFFFFFFu
#define VK_RETURN 0x0D
#define VK_ESCAPE 0x1B
#define VK_SPACE 0x20
#define VK_PRIOR 0x21
#define VK_NEXT 0x22
#define VK_END 0x23
#define VK_HOME 0x24
#define VK_LEFT 0x25
#define VK_UP 0x26
#define VK_RIGHT 0x27
#define VK_DOWN 0x28
BOOL W_PeekMessage(MSG*, HWND, UINT, UINT, UINT); BOOL W_GetMessage(MSG*, HWND, UINT, UINT); BOOL W_TranslateMessage(const MSG*); LRESULT W_DispatchMessage(const MSG*);
DWORD W_GetTickCount(void); ULONGLONG W_GetTickCount64(void); BOOL W_QueryPerformanceCounter(LARGE_INTEGER*); BOOL W_QueryPerformanceFrequency(LARGE_INTEGER*); void W_Sleep(DWORD); DWORD W_MsgWait(DWORD, const HANDLE*, BOOL, DWORD, DWORD);
BOOL W_InvalidateRect(HWND, const RECT*, BOOL); BOOL W_UpdateWindow(HWND); BOOL W_ShowWindow(HWND, int); LRESULT W_DefWindowProc(HWND, UINT, WPARAM, LPARAM); void W_PostQuitMessage(int); BOOL W_PostMessage(HWND, UINT, WPARAM, LPARAM); LRESULT W_SendMessage(HWND, UINT, WPARAM, LPARAM);
BOOL W_DestroyWindow(HWND); BOOL W_IsWindow(HWND); HDC W_BeginPaint(HWND, PAINTSTRUCT*); BOOL W_EndPaint(HWND, const PAINTSTRUCT*); BOOL W_ValidateRect(HWND, const RECT*); BOOL W_IsRectEmpty(const RECT*); BOOL W_GetClientRect(HWND, RECT*); BOOL W_GetUpdateRect(HWND, RECT*, BOOL);
BOOL W_StretchBlt(HDC, int, int, int, int, HDC, int, int, int, int, DWORD); BOOL W_BitBlt(HDC, int, int, int, int, HDC, int, int, DWORD); int W_SetDIBits(HDC, HBITMAP, UINT, UINT, const void*, const BITMAPINFO*, UINT); int W_StretchDIBits(HDC, int, int, int, int, int, int, int, int, const void*, const BITMAPINFO*, UINT, DWORD);
HDC W_CreateCompatibleDC(HDC); HBITMAP W_CreateCompatibleBitmap(HDC, int, int); HGDIOBJ W_SelectObject(HDC, HGDIOBJ); BOOL W_DeleteObject(HGDIOBJ); BOOL W_DeleteDC(HDC); HDC W_GetWindowDC(HWND); int W_ReleaseDC(HWND, HDC);
ATOM W_RegisterClass(const WNDCLASS*); HWND W_CreateWindow(LPCSTR, LPCSTR, DWORD, int, int, int, int, HWND, HMENU, HINSTANCE, LPVOID); BOOL W_AdjustWindowRect(RECT*, DWORD, BOOL); HMODULE W_GetModuleHandle(LPCSTR); DWORD W_GetLastError(void); int W_MessageBox(HWND, LPCSTR, LPCSTR, UINT); HCURSOR W_LoadCursor(HINSTANCE, LPCSTR);
#ifdef __cplusplus
}
#endif
#define W_A(n) W_##n
#define PeekMessage W_PeekMessage
#define PeekMessageA W_PeekMessage
#define GetMessage W_GetMessage
#define GetMessageA W_GetMessage
#define TranslateMessage W_TranslateMessage
#define DispatchMessage W_DispatchMessage
#define DispatchMessageA W_DispatchMessage
#define GetTickCount W_GetTickCount
#define GetTickCount64 W_GetTickCount64
#define timeGetTime W_GetTickCount
#define QueryPerformanceCounter W_QueryPerformanceCounter
#define QueryPerformanceFrequency W_QueryPerformanceFrequency
#define Sleep W_Sleep
#define MsgWaitForMultipleObjects W_MsgWait
#define InvalidateRect W_InvalidateRect
#define UpdateWindow W_UpdateWindow
#define ShowWindow W_ShowWindow
#define DefWindowProc W_DefWindowProc
#define DefWindowProcA W_DefWindowProc
#define PostQuitMessage W_PostQuitMessage
#define PostMessage W_PostMessage
#define SendMessage W_SendMessage
#define DestroyWindow W_DestroyWindow
#define IsWindow W_IsWindow
#define BeginPaint W_BeginPaint
#define EndPaint W_EndPaint
#define ValidateRect W_ValidateRect
#define IsRectEmpty W_IsRectEmpty
#define GetClientRect W_GetClientRect
#define GetUpdateRect W_GetUpdateRect
#define StretchBlt W_StretchBlt
#define BitBlt W_BitBlt
#define SetDIBits W_SetDIBits
#define StretchDIBits W_StretchDIBits
#define CreateCompatibleDC W_CreateCompatibleDC
#define CreateCompatibleBitmap W_CreateCompatibleBitmap
#define SelectObject W_SelectObject
#define DeleteObject W_DeleteObject
#define DeleteDC W_DeleteDC
#define GetWindowDC W_GetWindowDC
#define GetDC W_GetWindowDC
#define ReleaseDC W_ReleaseDC
#define RegisterClass W_RegisterClass
#define RegisterClassA W_RegisterClass
#define CreateWindow W_CreateWindow
#define CreateWindowA W_CreateWindow
#define CreateWindowEx(x, ...) W_CreateWindow(__VA_ARGS__)
#define AdjustWindowRect W_AdjustWindowRect
#define GetModuleHandle W_GetModuleHandle
#define GetModuleHandleA W_GetModuleHandle
#define GetLastError W_GetLastError
#define MessageBox W_MessageBox
#define LoadCursor W_LoadCursor
#define ZeroMemory(p, n) memset((p), 0, (n))
#define FillMemory(p, n, v) memset((p), (v), (n))
#define CopyMemory(d, s, n) memcpy((d), (s), (n))
