#ifndef VERIF_DISPATCH_H
#define VERIF_DISPATCH_H
/* Stand-in for libdispatch: queues are names only, see fsesim.c. */
typedef struct verif_queue *dispatch_queue_t;
typedef void *dispatch_queue_attr_t;
#define DISPATCH_QUEUE_SERIAL ((void *)0)
dispatch_queue_t dispatch_queue_create(const char *label, dispatch_queue_attr_t attr);
#endif
