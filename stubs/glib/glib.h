#pragma once
// Host replacement of the parts of GLib which are used by the library; implemented by the harness (harness/c33.cpp).
#include <errno.h>
typedef int gboolean; typedef void* gpointer; typedef unsigned int guint; typedef int gint; typedef char gchar;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define G_SOURCE_REMOVE FALSE
#define G_SOURCE_CONTINUE TRUE
#define G_PRIORITY_DEFAULT 0
#define G_PRIORITY_DEFAULT_IDLE 200
enum GIOCondition { G_IO_IN = 1, G_IO_PRI = 2, G_IO_OUT = 4, G_IO_ERR = 8, G_IO_HUP = 16, G_IO_NVAL = 32 };
struct GMainContext; struct GIOChannel; struct GSource;
typedef gboolean (*GSourceFunc)(gpointer); typedef void (*GDestroyNotify)(gpointer);
#define G_SOURCE_FUNC(f) ((GSourceFunc)(void (*)(void))(f))
guint g_idle_add(GSourceFunc f, gpointer data);
guint g_timeout_add(guint interval, GSourceFunc f, gpointer data);
GSource* g_idle_source_new(); GSource* g_timeout_source_new(guint interval);
GIOChannel* g_io_channel_unix_new(int fd); void g_io_channel_unref(GIOChannel*); GIOChannel* g_io_channel_ref(GIOChannel*);
GSource* g_io_create_watch(GIOChannel*, GIOCondition);
void g_source_set_callback(GSource*, GSourceFunc, gpointer, GDestroyNotify); guint g_source_attach(GSource*, GMainContext*);
void g_source_destroy(GSource*); void g_source_unref(GSource*); GSource* g_source_ref(GSource*); gboolean g_source_is_destroyed(GSource*);
void g_source_set_priority(GSource*, gint); GSource* g_main_current_source(); void g_source_set_ready_time(GSource*, long long);
void g_main_context_wakeup(GMainContext*);
