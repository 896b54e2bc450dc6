// The call entries of the JNI function table by result type
#pragma once
#include <jni.h>
#include <cstdarg>

template <class T> struct Calls;
#define PBT_CALLS(T, N)                                                                            \
    template <> struct Calls<T> {                                                                  \
        static T v(JNIEnv* e, jobject o, jmethodID m, va_list l) { return e->functions->Call##N##MethodV(e, o, m, l); }                        \
        static T a(JNIEnv* e, jobject o, jmethodID m, jvalue* l) { return e->functions->Call##N##MethodA(e, o, m, l); }                        \
        static T nv(JNIEnv* e, jobject o, jclass c, jmethodID m, va_list l) { return e->functions->CallNonvirtual##N##MethodV(e, o, c, m, l); } \
        static T na(JNIEnv* e, jobject o, jclass c, jmethodID m, jvalue* l) { return e->functions->CallNonvirtual##N##MethodA(e, o, c, m, l); } \
        static T sv(JNIEnv* e, jclass c, jmethodID m, va_list l) { return e->functions->CallStatic##N##MethodV(e, c, m, l); }                  \
        static T sa(JNIEnv* e, jclass c, jmethodID m, jvalue* l) { return e->functions->CallStatic##N##MethodA(e, c, m, l); }                  \
        template <class... X> static T d(JNIEnv* e, jobject o, jmethodID m, X... x) { return e->functions->Call##N##Method(e, o, m, x...); }   \
        template <class... X> static T nd(JNIEnv* e, jobject o, jclass c, jmethodID m, X... x) { return e->functions->CallNonvirtual##N##Method(e, o, c, m, x...); } \
        template <class... X> static T sd(JNIEnv* e, jclass c, jmethodID m, X... x) { return e->functions->CallStatic##N##Method(e, c, m, x...); } \
    };
PBT_CALLS(void, Void)
PBT_CALLS(jobject, Object)
PBT_CALLS(jboolean, Boolean)
PBT_CALLS(jbyte, Byte)
PBT_CALLS(jchar, Char)
PBT_CALLS(jshort, Short)
PBT_CALLS(jint, Int)
PBT_CALLS(jlong, Long)
PBT_CALLS(jfloat, Float)
PBT_CALLS(jdouble, Double)
#undef PBT_CALLS

template <class T> struct Fields;
#define PBT_FIELDS(T, N)                                                                           \
    template <> struct Fields<T> {                                                                 \
        static T get(JNIEnv* e, jobject o, jfieldID f) { return e->functions->Get##N##Field(e, o, f); }             \
        static void set(JNIEnv* e, jobject o, jfieldID f, T x) { e->functions->Set##N##Field(e, o, f, x); }         \
        static T sget(JNIEnv* e, jclass o, jfieldID f) { return e->functions->GetStatic##N##Field(e, o, f); }       \
        static void sset(JNIEnv* e, jclass o, jfieldID f, T x) { e->functions->SetStatic##N##Field(e, o, f, x); }   \
    };
PBT_FIELDS(jobject, Object)
PBT_FIELDS(jboolean, Boolean)
PBT_FIELDS(jbyte, Byte)
PBT_FIELDS(jchar, Char)
PBT_FIELDS(jshort, Short)
PBT_FIELDS(jint, Int)
PBT_FIELDS(jlong, Long)
PBT_FIELDS(jfloat, Float)
PBT_FIELDS(jdouble, Double)
#undef PBT_FIELDS
