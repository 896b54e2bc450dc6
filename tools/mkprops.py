#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the property texts live here, the check sizes in props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS

L = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


I = "src/jnivm/internal/"
prop("C01", "Strings read back the UTF-16 they were made from",
     "A string made from any sequence of UTF-16 units, or from its modified UTF-8 encoding, reads back as exactly those units and exactly that encoding (NUL as two bytes, surrogates encoded one by one), through any reference to it. "
     "Its lengths are the number of units and the number of encoded bytes. Every in-range region equals the same slice of the units, or the encoding of that slice followed by a terminator.",
     ["inputs"], "all UTF-16 sequences (every unit value, lone and paired surrogates, embedded NUL, empty and long), all entry points, all in-range regions",
     "65536 unit values times their combinations and region boundaries; tests use a handful of strings",
     [I + "string.cpp", I + "stringUtil.cpp", "include/jnivm/string.h"],
     [("JCharToUTF / UTFToJChar", I + "stringUtil.cpp"), ("GetStringRegion / GetStringUTFRegion", I + "string.cpp")],
     ["NewString, NewStringUTF, GetString*Length, GetString*Chars, GetStringCritical, GetString*Region"])
prop("C02", "Malformed string bytes are decoded group by group or rejected cleanly",
     "Any NUL-terminated byte sequence may be handed in as a string: its bytes and its byte length read back unchanged. "
     "The UTF-16 accessors decode it when it is structurally a sequence of one-, two- and three-byte groups and otherwise throw a catchable error, as soon as the part asked for contains a malformed group. "
     "No accessor ever reads outside the string, writes outside the caller's buffer, loses memory or fails to terminate.",
     ["inputs"], "all NUL-terminated byte sequences, truncated, overlong, four-byte and stray-continuation forms included, and all regions inside the decodable part",
     "memory safety on malformed input is a statement about every byte sequence",
     [I + "string.cpp", I + "stringUtil.cpp"],
     [("UTFToJCharLength", I + "stringUtil.cpp"), ("GetStringLength, GetStringRegion, GetStringUTFRegion", I + "string.cpp")],
     ["the string functions of the JNI table, under AddressSanitizer"])
prop("C03", "Calls deliver exactly the arguments passed and the value returned",
     "A hooked function receives exactly the arguments the caller passed, in order, bit for bit and with object identity kept, and the caller receives exactly the value the function returned, for every mix of parameter types and any number of parameters. "
     "This holds alike for the variadic, va_list and array forms of virtual, non-virtual, static and constructor calls, and for calls made through a method object.",
     ["inputs", "programs"], "all parameter lists over the eight primitive types, strings, objects, arrays and native-typed forms, up to beyond the register-passed part, with random values, in every call form",
     "the product of type sequences, argument counts, values and call forms is unbounded; register/stack spilling depends on the whole sequence",
     [I + "method.cpp", I + "jValuesfromValist.cpp", "include/jnivm/wrap.h", "include/jnivm/jnitypes.h", "include/jnivm/method.h", "src/jnivm/method.cpp"],
     [("JValuesfromValist", I + "jValuesfromValist.cpp"), ("MDispatch::CallMethod", I + "method.cpp"), ("Wrap / AnotherHelper / JNITypes", "include/jnivm/wrap.h"), ("Method::invoke", "include/jnivm/method.h")],
     ["the hooked function's parameters and the caller's return value"])
prop("C04", "Any signature text is parsed exactly or rejected without harm",
     "Any byte string of up to some thousand bytes may be supplied as a method or field signature. A well-formed method signature is split into exactly its parameters wherever arguments are collected by it, and, in builds with debug output, the classes it names become known; "
     "a malformed one is rejected with a catchable error or kept as an opaque key. In no case does a lookup, a call or the generation of sources read outside the text, run away or crash.",
     ["inputs"], "all NUL-terminated signature strings: generated from the descriptor grammar, mutated from it, and arbitrary bytes",
     "the parsers scan unbounded attacker-shaped text; tests feed well-formed signatures",
     [I + "jValuesfromValist.cpp", I + "skipJNIType.cpp", I + "findclass.cpp", I + "codegen/parseJNIType.cpp", I + "codegen/method.cpp", I + "codegen/field.cpp", I + "method.cpp"],
     [("SkipJNIType", I + "skipJNIType.cpp"), ("JValuesfromValist", I + "jValuesfromValist.cpp"), ("Declare", I + "findclass.cpp"), ("ParseJNIType", I + "codegen/parseJNIType.cpp")],
     ["GetMethodID/GetFieldID, Call*MethodV, VM::GenerateHeader and friends, under AddressSanitizer"])
prop("C05", "Objects live exactly as long as something refers to them",
     "An object stays alive as long as a native owner, a global reference not yet deleted or a local reference in a frame not yet popped holds it, and is destroyed as soon as the last of them is gone. "
     "A weak reference yields the object while it is alive and behaves as null afterwards; deleting one reference removes that one and no other; popping a frame releases exactly the local references made in it and hands its result to the outer frame. "
     "The reference kind query and the same-object comparison agree with this at every point of any history.",
     ["histories"], "all sequences of creating, copying, deleting and popping references of the three kinds over several objects and nested frames",
     "lifetime errors depend on the interleaving of frame pushes, pops and reference deletions",
     ["src/jnivm/vm.cpp", "include/jnivm/jnitypes.h", "include/jnivm/env.h", "include/jnivm/weak.h"],
     [("NewLocalRef, PushLocalFrame, PopLocalFrame, NewGlobalRef, NewWeakGlobalRef, Delete*Ref, IsSameObject", "src/jnivm/vm.cpp"), ("ToJNIType", "include/jnivm/jnitypes.h")],
     ["native destructor calls, weak pointers, GetObjectRefType, IsSameObject"],
     [("localframe", "stack of local reference frames", "include/jnivm/env.h"), ("globals", "global reference table", "include/jnivm/vm.h")])
prop("C06", "Lookups give every symbol one stable identity of its own",
     "Looking up a class by name, or a member by class, name, signature and staticness, always yields the same identity for equal keys and different identities for different keys, nested and array class names included, whatever else was looked up in between. "
     "A constructor is identified by its parameter list alone, whatever return type is written. "
     "A VM configured to return null for unknown symbols finds what was declared and invents no class or member.",
     ["histories", "inputs"], "all sequences of class, method, static method, constructor and field lookups over colliding names, on creating and on null-returning VMs",
     "aliasing depends on which other names were looked up before, and in which order",
     [I + "findclass.cpp", I + "method.cpp", I + "field.cpp", "src/jnivm/vm.cpp"],
     [("InternalFindClass", I + "findclass.cpp"), ("GetMethodID", I + "method.cpp"), ("GetFieldID", I + "field.cpp")],
     ["FindClass, GetMethodID, GetStaticMethodID, GetFieldID, GetStaticFieldID results"],
     [("classes", "all classes by name", "include/jnivm/vm.h"), ("methods, fields", "members of a class", "include/jnivm/class.h")])
prop("C07", "Hierarchy queries and inherited lookups follow the class graph",
     "For any registered class graph, superclass, assignability and instance-of answer exactly what the graph says (assignability is its reflexive-transitive closure over superclass and interfaces; null is an instance of nothing). "
     "A member lookup finds the class's own declaration if there is one, else the first one met going depth-first through superclass and interfaces in declaration order, for methods and fields, static and not; only if there is none is a new member made, in the class that was asked.",
     ["inputs", "programs"], "random acyclic class graphs with shared bases and random member placement, every pair of classes and every member asked",
     "the number of graphs and placements is unbounded; tests check a few fixed ones",
     ["src/jnivm/vm.cpp", I + "method.cpp", I + "field.cpp", "include/jnivm/extends.h"],
     [("HasBaseClass, GetSuperclass, IsInstanceOf", "src/jnivm/vm.cpp"), ("base class recursion in GetMethodID/GetFieldID", I + "method.cpp")],
     ["GetSuperclass, IsAssignableFrom, IsInstanceOf, Get*ID and which hook a call through the ID reaches"])
prop("C08", "Virtual calls reach the nearest override, non-virtual calls the named class",
     "A virtual call through any method ID of a name and signature runs the implementation hooked in the receiver's dynamic class, or else in the nearest class found going depth-first through its superclass and interfaces, no matter from which class the ID was obtained and whether that class hooks the member itself; if no class does, at most the ID's own implementation runs. "
     "A non-virtual call runs the implementation of the class named in the call, its own or inherited, regardless of the receiver's class.",
     ["programs", "inputs"], "random class chains and graphs, random placement and replacement of overrides, receivers of every class, IDs from every class, all call forms",
     "which override is nearest depends on graph shape and on which classes happen to hook the method",
     [I + "method.cpp"],
     [("findVirtualOverload, findNonVirtualOverload", I + "method.cpp")],
     ["which hook ran, by the value it returned"])
prop("C09", "Fields read back what was last written, and only there",
     "A hooked field reads as what its storage or getter yields at that moment, and a write stores exactly the written value there and changes no other field, object or class, for all nine value types, static and per instance, bound as a variable, a member, or a getter and setter function. "
     "A write without a setter changes nothing, and a read without a getter yields a default value.",
     ["histories"], "all sequences of native and JNI reads and writes over several objects and fields with all value types",
     "cross-talk between fields, objects and access paths shows only in histories",
     [I + "field.cpp", "include/jnivm/wrap.h", "include/jnivm/hookManager.h"],
     [("GetField, SetField", I + "field.cpp"), ("OldWrapper Property/InstanceProperty", "include/jnivm/wrap.h"), ("PropertyBase::install", "include/jnivm/hookManager.h")],
     ["Get*Field, Set*Field, GetStatic*Field, SetStatic*Field, the native variables"])
prop("C10", "Every hook form binds under its Java signature and gets its context",
     "A native function hooked in any supported form (function, lambda, member function; taking the environment, the receiver or the class first, or not) is found under the Java signature of its remaining parameters and result, as static or instance member according to the form, and is called with the calling environment and the right receiver or class. "
     "Hooking the same name and signature again replaces the behaviour behind the identifiers already handed out, and hooking anything else changes no existing member.",
     ["histories", "programs"], "random sequences of hooking and re-hooking the supported forms under colliding names on several classes, with lookups and calls in between",
     "the hook forms multiply with names, classes and re-hook order",
     ["include/jnivm/class.h", "include/jnivm/hookManager.h", "include/jnivm/wrap.h", "include/jnivm/function.h"],
     [("HookManagerHelper, HookManagerHelper2", "include/jnivm/class.h"), ("FunctionBase::install", "include/jnivm/hookManager.h"), ("BaseWrapper", "include/jnivm/wrap.h")],
     ["GetMethodID / GetStaticMethodID on a null-returning VM, and the arguments the hook saw"])
prop("C11", "Primitive arrays hold what was stored and are zero before that",
     "A new primitive array of any type and length reports that length and its array class, and every element is zero if it was made through the JNI, or as initialised natively. "
     "After any sequence of in-range region writes, element-pointer writes and critical accesses each element reads as the last value stored to it, through every access path and every reference to the array, with neighbours, caller buffers beyond the requested length and other arrays untouched; the array's memory is released with it.",
     ["histories", "inputs"], "all eight element types, lengths from 0, random sequences of in-range accesses through every path",
     "boundaries of regions and aliasing of access paths",
     [I + "array.cpp", "include/jnivm/array.h"],
     [("NewArray, GetArrayElements, Get/SetArrayRegion", I + "array.cpp"), ("impl::Array", "include/jnivm/array.h")],
     ["New*Array, Get*ArrayElements, Get/Set*ArrayRegion, GetPrimitiveArrayCritical, native Array<T>"])
prop("C12", "Object arrays store objects by identity and enforce their element type",
     "A new object array has the given length and class name, with every element the initial object. After any sequence of stores through the JNI or through native views of the array's own type or any base type, each element reads as the object last stored (or null), through every view, whatever kind of reference was stored. "
     "Storing an object which is not of the element type of a natively typed array throws and leaves the array unchanged, and the array keeps exactly its current elements alive.",
     ["histories"], "random sequences of stores and loads through all views of arrays over a class hierarchy with multiple bases, all reference kinds",
     "covariant views, pointer adjustment between bases and lifetime only go wrong in particular combinations",
     [I + "array.cpp", "include/jnivm/array.h", "include/jnivm/jnitypes.h"],
     [("NewObjectArray, Get/SetObjectArrayElement", I + "array.cpp"), ("impl::Array / ArrayBaseImpl / Arrayguard", "include/jnivm/array.h"), ("utility_ (InstantiateArray)", "include/jnivm/jnitypes.h")],
     ["element identities, thrown exceptions, destructor calls"])
prop("C13", "Exceptions become pending on the thread that raised them, and only there",
     "When a hooked function throws, the call returns normally with a default value and exactly that exception is pending in the calling environment; no other environment is affected. "
     "Throwing, creating, querying, describing and clearing exceptions behave at every point of any history as a single per-environment pending slot would: the occurred object is the one thrown, checking agrees with it, clearing empties it. "
     "A call made through a method object hands the exception on to its native caller.",
     ["histories", "fault_sequences"], "random sequences of throwing calls (all return types and call forms), Throw, ThrowNew, Occurred, Describe, Clear over several environments",
     "pending state is history; tests look at single throws",
     ["src/jnivm/vm.cpp", I + "method.cpp", "include/jnivm/method.h", "include/jnivm/throwable.h"],
     [("CallMethod catch blocks", I + "method.cpp"), ("Throw, ThrowNew, Exception*", "src/jnivm/vm.cpp"), ("j2invoke", "include/jnivm/method.h")],
     ["ExceptionCheck, ExceptionOccurred, Throwable::except, exceptions thrown by Method::invoke"],
     [("current_exception", "the pending exception of an environment", "include/jnivm/env.h")])
prop("C14", "Registered native methods are found and called until unregistered",
     "After natives were registered on a class, invoking one by its name and signature calls exactly the function registered last for that name and signature in that class or the nearest base class, with the environment, the receiver or class, the arguments and the result passed through unchanged. "
     "Unregistering removes all natives of that class and nothing else: hooked members and the natives of other classes keep working. A class hands out a hooked function as a method object just as a lookup finds it, and refuses to choose between a static and a non-static one.",
     ["histories"], "random sequences of registering (again), unregistering, hooking and invoking over several classes, names and signatures",
     "stale registrations appear only after particular orders of registering and unregistering",
     ["src/jnivm/vm.cpp", "src/fake-jni/method.cpp", "include/jnivm/method.h"],
     [("RegisterNatives, UnregisterNatives", "src/jnivm/vm.cpp"), ("Class::getMethod", "src/fake-jni/method.cpp"), ("j2invoke native branch", "include/jnivm/method.h")],
     ["which native ran and what it received"])
prop("C15", "Each attached thread has one environment of its own",
     "Attaching a thread yields its environment: the same one however often it attaches or asks, a different one from any other attached thread, and the table the VM's hooks have altered. "
     "Local references, frames and the pending exception of one thread are never visible in another, while classes, members and global references are the same everywhere. "
     "Detaching releases the thread's local references and nothing else, and attaching again starts clean.",
     ["histories", "schedules"], "random histories of attach, detach, query, reference and exception operations by several threads",
     "isolation is about combinations of thread histories",
     ["src/jnivm/vm.cpp", "src/jnivm/env.cpp", "include/jnivm/vm.h"],
     [("AttachCurrentThread, DetachCurrentThread, GetEnv", "src/jnivm/vm.cpp"), ("CreateEnv", "src/jnivm/vm.cpp")],
     ["environment pointers, object lifetimes, ExceptionCheck, installed hooks"],
     [("jnienvs", "environment of each thread", "include/jnivm/vm.h")])
prop("C16", "Concurrent use by attached threads keeps tables consistent and race-free",
     "Any number of attached threads may concurrently look up classes and members, create, convert and delete local, global and weak references, create strings and arrays, call hooked methods, bind native types, hook functions of classes which only the hooking thread uses so far, and attach or detach, without a data race. "
     "Equal lookups give the same identity in all threads, every reference refers to the object it was made for, and nothing is lost or destroyed early.",
     ["schedules"], "random per-thread programs over a shared VM, run concurrently under ThreadSanitizer",
     "data races depend on the schedule and rarely show in a test run",
     ["src/jnivm/vm.cpp", I + "findclass.cpp", I + "method.cpp", I + "field.cpp", I + "array.cpp"],
     [("VM::mtx, Class::mtx", "include/jnivm/vm.h"), ("InternalFindClass callers", I + "findclass.cpp")],
     ["ThreadSanitizer reports, identities, object lifetimes"])
prop("C17", "Monitors exclude other threads and nest",
     "Between entering and leaving an object's monitor no other thread is inside the same object's monitor, whichever kind of reference each of them used; the owner may enter again and owns it until it has left as often as it entered. "
     "Monitors of different objects are independent, and a thread waiting for a monitor gets it once it is free.",
     ["schedules", "histories"], "random nesting programs over several objects and threads with random reference kinds",
     "mutual exclusion is a property of schedules",
     ["src/jnivm/vm.cpp", "include/jnivm/object.h"],
     [("MonitorEnter, MonitorExit", "src/jnivm/vm.cpp"), ("ObjectMutexWrapper", "include/jnivm/object.h")],
     ["an unprotected counter and an owner variable guarded only by the monitor"])
prop("C18", "Deny rules hide exactly what they match",
     "On a VM with deny rules, a class or member which nothing declared is reported as missing exactly when a rule matches it: a class rule by its full name; a member rule by name, signature and class, where an empty part of the rule matches everything. "
     "Everything else is invented as usual, and what was declared by a hook or by an earlier successful lookup stays available whatever rules exist. The query functions agree with the lookups.",
     ["histories", "inputs"], "random rule sets with wildcards and near-miss names, random lookups in all orders",
     "rule matching is a predicate over all triples and rule sets",
     ["src/baron/jvm.cpp", "include/baron/baron.h"],
     [("isClassDenied, isMethodDenied, isFieldDenied", "src/baron/jvm.cpp"), ("CreateEnv table overrides", "src/baron/jvm.cpp"), ("Jvm::findClass", "src/baron/jvm.cpp")],
     ["FindClass, Get*ID, findClass, is*Denied"])
prop("C19", "Library loading balances every open with one close, hooks in order",
     "For any sequence of attaching and removing libraries and finally destroying the VM, every handle obtained is closed exactly once, after its unload hook ran exactly once with the VM, and every load hook runs exactly once when its library is attached. "
     "A bare name which cannot be opened falls back to the program itself and its load and unload hooks of that name; a library which cannot be opened at all is harmless.",
     ["histories", "fault_sequences"], "random attach/remove sequences over names of all shapes with generated outcomes of open and symbol lookup",
     "resource balance over histories with injected failures",
     ["src/fake-jni/fake-jni.cpp", "include/fake-jni/libraryoptions.h", "include/fake-jni/jvm.h"],
     [("libinst", "src/fake-jni/fake-jni.cpp"), ("attachLibrary, removeLibrary", "src/fake-jni/fake-jni.cpp")],
     ["the calls recorded by substituted open, symbol and close functions"])
prop("C20", "Generated sources declare exactly what was used, and compile",
     "After any history of lookups with names which C++ can express (no keywords or names of the library, no scope using a name twice, no two classes mentioning nested classes of each other), the generated pre-declarations, headers, stubs and bindings mention every class that is not built in and every member of it that was used, in its proper scope, with the native types of its signature, and each of them exactly once. "
     "The generated file is accepted by the compiler, and binding it makes every recorded lookup succeed on a VM that returns null for unknown symbols.",
     ["histories", "programs"], "random sets of namespaces, nested classes, overloaded methods, fields and signatures, in both output styles",
     "the output must be right for every recorded history, not one sample program",
     [I + "codegen/class.cpp", I + "codegen/method.cpp", I + "codegen/field.cpp", I + "codegen/namespace.cpp", I + "codegen/vm.cpp", I + "codegen/parseJNIType.cpp"],
     [("GenerateHeader, GenerateStubs, GenerateJNIBinding, GenerateClassDump", I + "codegen/vm.cpp"), ("ParseJNIType", I + "codegen/parseJNIType.cpp")],
     ["the generated text, the compiler's verdict, lookups on a VM bound with it"])
prop("C21", "Calls and reads nothing implements yield a value of the declared type",
     "Calling a method or reading a field that nothing implements never fails: primitive results are zero. Where object results are fabricated, the result of a class or array type is an object of exactly the declared class, arrays being empty, and classes which cannot be constructed give null; where they are not, the result is null. "
     "No exception becomes pending, and arguments are left untouched.",
     ["inputs", "configurations"], "all return types including nested arrays of every element type, classes with and without constructors, all call forms, fabrication on and off",
     "return types form an infinite grammar; tests use a few",
     [I + "method.cpp", I + "field.cpp"],
     [("defaultVal", I + "method.cpp")],
     ["the returned reference's class, length and the pending exception"])
prop("C22", "Reflected members convert back to the identifier they came from",
     "Turning the identifier of any existing method or field into a reflected object and back yields the same identifier, through any kind of reference to that object, and the object is an instance of the reflection class of its kind. "
     "Asking with the wrong staticness, with null, or converting back an object of any other class yields null.",
     ["inputs", "histories"], "all methods and fields (declared, invented, inherited, constructors), all reference kinds, all wrong-kind objects",
     "tests convert single members; the relation must hold for all",
     ["src/jnivm/vm.cpp"],
     [("ToReflectedMethod, FromReflectedMethod, ToReflectedField, FromReflectedField", "src/jnivm/vm.cpp")],
     ["identifiers after the round trip, IsInstanceOf"])
prop("C23", "All reference kinds to an object are interchangeable",
     "Any function that takes an object, class, string, array, buffer or throwable gives the same result and has the same effect whether it is handed the object itself, a local, a global or a live weak reference to it, or a reference to such a reference.",
     ["inputs", "histories"], "random operations of the whole function table with each reference argument replaced by every kind of reference to the same object",
     "a missing unwrap in one function shows only for one argument position and one kind",
     ["include/jnivm/jnitypes.h", "src/jnivm/vm.cpp", I + "array.cpp", I + "method.cpp", I + "field.cpp", I + "string.cpp", I + "bytebuffer.cpp"],
     [("UnpackJObject", "include/jnivm/jnitypes.h"), ("all table functions", "src/jnivm/vm.cpp")],
     ["results of the same operation under different reference kinds"])
prop("C24", "Everything a VM allocates is released with it",
     "Whatever was done with a VM, destroying it releases every object, class, member, reference, array, string and environment it still holds, exactly once, and leaves objects owned by native code usable. "
     "Repeating the same history does not accumulate memory.",
     ["histories"], "random histories over the whole API, cut off at any point by destruction of the VM",
     "leaks and double releases depend on what was left behind when the VM went away",
     ["src/jnivm/vm.cpp", "src/jnivm/env.cpp", I + "array.cpp", I + "string.cpp", "include/jnivm/array.h"],
     [("VM, ENV, Class destruction", "include/jnivm/vm.h"), ("NewArray, NewString, GetStringChars", I + "array.cpp")],
     ["live heap blocks before and after, native destructor counts, AddressSanitizer"])
prop("C25", "References of the wrong type are refused with an error, never misread",
     "Handing a function an existing object of a type it does not accept (a string where an array is needed, an array of another element type, an object where a class is needed, another kind of reference to delete as a global or a weak one) throws a catchable error and changes nothing, and a hook whose parameter type does not match the object passed leaves an exception pending without running. "
     "No such call reads or writes memory that does not belong to the object.",
     ["inputs"], "all pairs of a typed argument position and an object of any other type, through all reference kinds",
     "the pairs multiply, and memory misuse is silent without instrumentation",
     ["include/jnivm/jnitypes.h", I + "array.cpp", I + "string.cpp", I + "bytebuffer.cpp", "src/jnivm/vm.cpp"],
     [("UnpackJObject dynamic_cast", "include/jnivm/jnitypes.h")],
     ["thrown exceptions, pending exceptions, unchanged contents, AddressSanitizer"])
prop("C26", "Scoped native contexts attach, frame and restore the thread correctly",
     "For any nesting of scoped contexts and local frames, the current environment inside is the thread's environment of that VM, references made in a frame end with it, and the thread is detached again exactly when the scope which attached it ends; a pending exception stays pending through all of this as long as the environment does. "
     "Starting the program runs the registered main function once with the given arguments, passes on the exception it ends with, and fails cleanly if there is none, and a second VM on an attached thread is refused and leaves the first one usable.",
     ["histories", "programs"], "random nestings of contexts and frames on the main and on other threads, with exceptions thrown through them",
     "scope handling must be right for every nesting and every unwinding",
     ["src/fake-jni/fake-jni.cpp", "src/fake-jni/jvm.cpp", "include/fake-jni/jvm.h"],
     [("JniEnvContext, LocalFrame, ThreadContext", "src/fake-jni/fake-jni.cpp"), ("Jvm::CreateEnv", "src/fake-jni/jvm.cpp"), ("Jvm::start, createMainMethod", "src/fake-jni/fake-jni.cpp")],
     ["JniEnv::getCurrentEnv, object lifetimes, exceptions"])
prop("C27", "Native code the VM calls may use the VM while it runs",
     "While a hooked method, accessor, native method or the destructor of a native object runs because the VM called or released it, it may use its environment freely: call and hook members again, its own included, register and unregister natives, take and delete references, those it was called through included, push and pop frames, store into arrays, throw and clear exceptions. "
     "The running call finishes with everything it captured intact and returns its value; what was changed holds for the next call; destructors run by deleting a reference, popping a frame, replacing an element, hook or exception, or detaching a thread see a consistent VM, and what they create belongs to the enclosing frame.",
     ["histories", "programs"], "trees of operations nested in hooks, accessors, natives and destructors to a depth of five and more, on several threads, with every way of replacing or releasing what is running; the destruction of a whole VM is left out",
     "what a callback does to the tables that are being walked shows only for the right nesting",
     [I + "method.cpp", I + "field.cpp", "src/jnivm/vm.cpp", "include/jnivm/array.h", "include/jnivm/hookManager.h", "include/jnivm/method.h"],
     [("CallMethod, GetField, SetField", I + "method.cpp"), ("PopLocalFrame, DeleteLocalRef, DeleteGlobalRef, DetachCurrentThread, UnregisterNatives", "src/jnivm/vm.cpp"), ("Array<Object>::Set", "include/jnivm/array.h")],
     ["which implementation ran, results, captured state, living objects and implementations after each outermost operation, AddressSanitizer"])
prop("C28", "Function table hooks apply once, in order, to each later environment of a VM",
     "A hook registered on a VM's environment tables is applied exactly once, in the order of registration, to every environment that VM creates afterwards and to no earlier environment and no other VM; what one hook left in the table the next one sees. "
     "Entries no hook replaced behave as on any other VM, and a replaced entry is reached through every pointer to that environment. The VM's own and the invocation table can be replaced the same way, a foreign table is refused with nothing changed. A hook which throws makes the attachment fail without leaving an environment behind, and attaching again works.",
     ["histories", "programs"], "random sequences of registering hooks (replacing, wrapping, counting, failing), attaching and detaching threads and creating VMs, with every table entry used afterwards",
     "which hooks an environment has depends on the order of registrations and attachments over all threads and VMs",
     ["src/jnivm/vm.cpp", "src/jnivm/env.cpp", "include/jnivm/vm.h", "src/fake-jni/jvm.cpp"],
     [("VM::VM, AttachCurrentThread, CreateEnv", "src/jnivm/vm.cpp"), ("ENV::ENV", "src/jnivm/env.cpp")],
     ["function pointers of environments and VMs, calls through them, order and number of hook runs"])
prop("C29", "VMs of one process are independent of each other",
     "Several VMs may live in one process, one after another or at once, on one thread or on many, plain or Baron. What a program sees on one of them (results, classes, signatures of hooks, pending exceptions, frames, natives, denied symbols, descriptors, generated sources) is what it would see if that VM were alone, "
     "even where the others bind the same native types under the same or other names, and does not depend on which VMs existed before.",
     ["histories", "programs", "schedules"], "up to three VMs with programs over the whole function table, run alone, interleaved by random schedules on one or more threads, and concurrently",
     "state shared by accident shows only for particular interleavings of particular operations of different VMs",
     ["include/jnivm/env.h", "include/jnivm/jnitypes.h", "include/jnivm/vm.h", "include/jnivm/hookManager.h", "src/jnivm/vm.cpp", "src/baron/jvm.cpp", "include/fake-jni/fake-jni.h"],
     [("typecheck, classes", "include/jnivm/vm.h"), ("GetClass, Factory", "include/jnivm/env.h"), ("GetJNISignature", "include/jnivm/jnitypes.h")],
     ["everything returned, seen by hooks or raised, per operation; ThreadSanitizer"])
prop("C30", "Direct buffers are windows on exactly the memory they were made for",
     "A direct buffer, made by NewDirectByteBuffer or natively, answers with exactly the address and the 64-bit capacity it was made with, through every kind of reference, on every attached thread, as argument and result of hooks and natives, from fields and arrays, and passes on the same object each time. "
     "Two buffers over the same memory are different objects. The VM never reads, writes or frees the memory of a buffer, and releases the buffer with its last reference.",
     ["inputs", "histories"], "all addresses and capacities from zero to beyond 32 bits, all ways a buffer travels, in any order and with any references dropped in between",
     "sizes beyond 32 bits, empty and overlapping buffers and the ways a buffer can take multiply",
     [I + "bytebuffer.cpp", "include/jnivm/bytebuffer.h", "include/jnivm/jnitypes.h"],
     [("NewDirectByteBuffer, GetDirectBufferAddress, GetDirectBufferCapacity", I + "bytebuffer.cpp"), ("ByteBuffer", "include/jnivm/bytebuffer.h")],
     ["addresses, capacities, identity, memory contents, memory which may not be touched, lifetimes"])

prop("C31", "Described classes have exactly the described members, in every VM",
     "A class bound by fake-jni descriptors has, in each VM in which it is registered, exactly the described constructors, functions and fields: under the signatures of their C++ types, static or not as the flags say (a static function or field without STATIC is an instance member, with the minecraft-linux option only if a flag is given), "
     "inherited through the declared base classes, and acting on the C++ object itself. Its objects, however made, have that class natively and through JNI. The order of registrations, registering again, other VMs and other hooks of the class change nothing; describing an instance member as static is refused.",
     ["inputs", "histories"], "all hierarchies of described classes, flags and orders of registration, in any number of VMs one after the other or at the same time on different threads",
     "flags, kinds of member, order of registration and the number of VMs multiply",
     ["include/fake-jni/fake-jni.h", "src/fake-jni/fake-jni.cpp", "src/fake-jni/jvm.cpp", "include/jnivm/env.h", "include/jnivm/class.h", "include/jnivm/hookManager.h", "include/jnivm/wrap.h"],
     [("Descriptor, DEFINE_CLASS_NAME, BEGIN_NATIVE_DESCRIPTOR", "include/fake-jni/fake-jni.h"), ("Jvm::findClass, Env::resolveReference", "src/fake-jni/fake-jni.cpp"), ("Jvm::getClasses", "src/fake-jni/jvm.cpp"), ("ENV::GetClass", "include/jnivm/env.h")],
     ["lookups of every described and other name, signature and staticness; results of calls; C++ state after accesses; classes of objects"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in L:
        f.write(json.dumps(p) + "\n")

ids = [p["id"] for p in L]
NOTE = "seeded random cases in isolated processes, sanitizers on, shrunk replay; the counts and samples of each run are in the evidence file"
checks = [dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
               technique=PROPS[i].get("technique", "property-based testing against a reference model"), level="exploration", level_note=PROPS[i].get("note", NOTE))
          for i in ids if i in PROPS]
m = dict(version=1, setup_cmd="python3 run.py --selfcheck", checks=checks,
         not_applicable=[dict(property=i, reason="the check is not built yet") for i in ids if i not in PROPS],
         notes="Each check builds /repo's working tree in its configurations with its own harness (run.py, harness/), searches, shrinks and writes evidence/<id>.json.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(L), "properties,", len(checks), "checks")
