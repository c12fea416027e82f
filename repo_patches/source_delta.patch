From 88fb5ea75a520648901d518c34926c006ede0ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 01/91] fix: `/` reports division by zero through the procedure
 that exists

---
 src/core/s/prelude.min | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 46c9fad..9980d66 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -664,14 +664,14 @@
         [(x)
          (if (number? x)
              (if (zero? x)
-                 (division-0-error '/ x)
+                 (divide-0-error '/ x)
                  ($fx2/ 1 x))
              (non-number-error '/ x))]
         [(x y)
          (if (number? x)
              (if (number? y)
                  (if (zero? y)
-                     (division-0-error '/ y)
+                     (divide-0-error '/ y)
                      ($fx2/ x y))
                  (non-number-error '- y))
              (non-number-error '- x))]
@@ -679,14 +679,14 @@
          (if (number? x)
              (if (number? y)
                  (if (zero? y)
-                     (division-0-error '/ y)
+                     (divide-0-error '/ y)
                      (letrec-values ([(loop)
                                       (lambda (x xs)
                                          (if (null? xs)
                                              x
                                              (if (number? ($car xs))
                                                  (if (zero? ($car xs))
-                                                     (division-0-error '/ ($car xs))
+                                                     (divide-0-error '/ ($car xs))
                                                      (loop ($fx2- x ($car xs)) ($cdr xs)))
                                                  (non-number-error '- ($car xs)))))])
                        (loop ($fx2- x y) rest)))
-- 
2.43.0


From 3561f0d680cb943eaa0f3c2700fd1a24ef33b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 02/91] fix: n-ary `/` divides instead of subtracting

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 9980d66..eacff69 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -687,9 +687,9 @@
                                              (if (number? ($car xs))
                                                  (if (zero? ($car xs))
                                                      (divide-0-error '/ ($car xs))
-                                                     (loop ($fx2- x ($car xs)) ($cdr xs)))
+                                                     (loop ($fx2/ x ($car xs)) ($cdr xs)))
                                                  (non-number-error '- ($car xs)))))])
-                       (loop ($fx2- x y) rest)))
+                       (loop ($fx2/ x y) rest)))
                  (non-number-error '- y))
              (non-number-error '- x))]))))
 
-- 
2.43.0


From 9d23b2183af0c5fa78e8ddb70f90b729b3de9f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 03/91] fix: `/` names itself when an argument is not a number

---
 src/core/s/prelude.min | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index eacff69..fbd3301 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -673,8 +673,8 @@
                  (if (zero? y)
                      (divide-0-error '/ y)
                      ($fx2/ x y))
-                 (non-number-error '- y))
-             (non-number-error '- x))]
+                 (non-number-error '/ y))
+             (non-number-error '/ x))]
         [(x y . rest)
          (if (number? x)
              (if (number? y)
@@ -688,10 +688,10 @@
                                                  (if (zero? ($car xs))
                                                      (divide-0-error '/ ($car xs))
                                                      (loop ($fx2/ x ($car xs)) ($cdr xs)))
-                                                 (non-number-error '- ($car xs)))))])
+                                                 (non-number-error '/ ($car xs)))))])
                        (loop ($fx2/ x y) rest)))
-                 (non-number-error '- y))
-             (non-number-error '- x))]))))
+                 (non-number-error '/ y))
+             (non-number-error '/ x))]))))
 
 (define-values (add1)
   (lambda (x)
-- 
2.43.0


From accc1dada22849cf9ab408d45d75aa10551b1174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 04/91] fix: n-ary `*` reports the argument that is not a
 number

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index fbd3301..0cda3f2 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -657,8 +657,8 @@
                                              (loop ($fx2* x ($car xs)) ($cdr xs))
                                              (non-number-error '* ($car xs)))))])
                    (loop ($fx2* x y) rest))
-                 (non-number-error '* x))
-             (non-number-error '* y))])
+                 (non-number-error '* y))
+             (non-number-error '* x))])
       ; /
       (case-lambda
         [(x)
-- 
2.43.0


From 3c8ce527abccbf02f1ad938dc28d6980b934aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 05/91] fix: remainder and modulo reject a zero divisor

---
 src/core/s/prelude.min | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 0cda3f2..3798517 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -709,7 +709,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxremainder x y)
+            (if (zero? y)
+                (error 'remainder "division by zero" y)
+                ($fxremainder x y))
             (raise-argument-error 'remainder "number?" y))
         (raise-argument-error 'remainder "number?" x))))
 
@@ -717,7 +719,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxmodulo x y)
+            (if (zero? y)
+                (error 'modulo "division by zero" y)
+                ($fxmodulo x y))
             (raise-argument-error 'modulo "number?" y))
         (raise-argument-error 'modulo "number?" x))))
 
-- 
2.43.0


From 8c0c31f36275892af8cf92f3b1662129ea849e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 06/91] fix: make-string reports the argument that was rejected

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 3798517..cd8a14c 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -815,8 +815,8 @@
                   (if (non-negative-integer? n)
                       (if (char? c)
                           (void)
-                          (raise-argument-error 'make-string "char?" init))
-                      (raise-argument-error 'make-string "non-negative-integer?" len)))])
+                          (raise-argument-error 'make-string "char?" c))
+                      (raise-argument-error 'make-string "non-negative-integer?" n)))])
     (case-lambda
       [(n)
        (check-args! n #\a)
-- 
2.43.0


From 4980a02a5a95c74c4caa735584d0fd6c8e1d681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 07/91] fix: string-append reports the argument that is not a
 string

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index cd8a14c..5464316 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -859,7 +859,7 @@
                   (for-each (lambda (x)
                               (if (string? x)
                                   (void)
-                                  (raise-argument-error 'string-append "string?" s)))
+                                  (raise-argument-error 'string-append "string?" x)))
                             xs))]
                [(sum-lengths)
                 (lambda (xs)
-- 
2.43.0


From a75d2000fc55ddb2f4b0e368ece32c90d7c8dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 08/91] fix: make-list names itself in its contract error

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 5464316..75bc345 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -928,7 +928,7 @@
   (lambda (len init)
     (if (if (integer? len) (>= len 0) #f)
         ($make-list len init)
-        (raise-argument-error 'length "non-negative-integer?" len))))
+        (raise-argument-error 'make-list "non-negative-integer?" len))))
 
 (define-values (length)
   (lambda (xs)
-- 
2.43.0


From c15c989303e703596c08884e3f91fe5ff42dd681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 09/91] fix: vector-ref and vector-set! pass the range error
 its arguments in order

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 75bc345..9808b9f 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1133,7 +1133,7 @@
     (if (vector? v)
         (if (non-negative-integer? idx)
             (if (>= idx ($vector-length v))
-                (raise-range-error 'vector-ref "" v 0 ($vector-length v) idx)
+                (raise-range-error 'vector-ref v "" 0 ($vector-length v) idx)
                 ($vector-ref v idx))
             (raise-argument-error 'vector-ref "non-negative-integer?" idx))
         (raise-argument-error 'vector-ref "vector?" v))))
@@ -1143,7 +1143,7 @@
     (if (vector? v)
         (if (non-negative-integer? idx)
             (if (>= idx ($vector-length v))
-                (raise-range-error 'vector-set! "" v 0 ($vector-length v) idx)
+                (raise-range-error 'vector-set! v "" 0 ($vector-length v) idx)
                 ($vector-set! v idx x))
             (raise-argument-error 'vector-set! "non-negative-integer?" idx))
         (raise-argument-error 'vector-set! "vector?" v))))
-- 
2.43.0


From 848dd41fc06124310556033af2402896cf152206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 10/91] fix: vector-fill! names itself in its contract error

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 9808b9f..366132c 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1152,7 +1152,7 @@
   (lambda (v x)
     (if (vector? v)
         ($vector-fill! v x)
-        (raise-argument-error 'vector->list "vector?" v))))
+        (raise-argument-error 'vector-fill! "vector?" v))))
 
 (define-values (list->vector)
   (lambda (xs)
-- 
2.43.0


From e5169fa452eac281526f545053c171b4f629c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 11/91] fix: open-input-string reports the argument that is not
 a string

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 366132c..dbb89d9 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1200,7 +1200,7 @@
   (lambda (str)
     (if (string? str)
         ($open-input-string str)
-        (raise-argument-error 'open-input-string "string?" name))))
+        (raise-argument-error 'open-input-string "string?" str))))
 
 (define-values (close-input-port)
   (lambda (port)
-- 
2.43.0


From 38e6da655e9eae4069bdfe8c118fa7353a573c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 12/91] fix: close-input-port and close-output-port name
 themselves in contract errors

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index dbb89d9..18b3548 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1206,13 +1206,13 @@
   (lambda (port)
     (if (input-port? port)
         ($close-input-port port)
-        (raise-argument-error 'close-input-file "input-port?" port))))
+        (raise-argument-error 'close-input-port "input-port?" port))))
 
 (define-values (close-output-port)
   (lambda (port)
     (if (output-port? port)
         ($close-output-port port)
-        (raise-argument-error 'close-output-file "output-port?" port))))
+        (raise-argument-error 'close-output-port "output-port?" port))))
 
 (define-values (get-output-string)
   (lambda (port)
-- 
2.43.0


From af35105d9482a869a1830349dd8bd41316917f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 13/91] fix: make-record-type-descriptor checks its arguments

---
 src/core/s/prelude.min | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 18b3548..e6c8ede 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1230,17 +1230,19 @@
                          (let-values ([(type) ($car field)]
                                       [(rib) ($cdr field)])
                             (if (if (eq? type 'immutable) #t (eq? type 'mutable))
-                                (let-values ([(name) ($car rib)]
-                                             [(rib) ($cdr rib)])
-                                   (if (symbol? name)
-                                       (if (null? rib)
-                                           name
-                                           #f)
-                                       #f))
+                                (if (pair? rib)
+                                    (let-values ([(name) ($car rib)]
+                                                 [(rib) ($cdr rib)])
+                                       (if (symbol? name)
+                                           (if (null? rib)
+                                               name
+                                               #f)
+                                           #f))
+                                    #f)
                                 #f))
                          #f))]
                   [(check-args!)
-                   (lambda (name parent uid sealed? opaque?)
+                   (lambda (name parent uid sealed? opaque? fields)
                      (if (symbol? name)
                          (if (if (record-type-descriptor? parent)
                                  (begin
@@ -1304,10 +1306,10 @@
                                  (raise-argument-error
                                    'make-record-type-descriptor
                                    "invalid field; '(immutable <name>) or '(mutable <name>)"
-                                   field))))
+                                   ($vector-ref fields i)))))
                          (iota ($vector-length fields)))))])
     (lambda (name parent uid sealed? opaque? fields)
-      (let-values ([(rtd) ($make-record-type-descriptor name parent uid sealed? opaque? fields)])
+      (let-values ([(rtd) (check-args! name parent uid sealed? opaque? fields)])
         (if parent
             (let-values ([(rec-equal?) (record-type-equal-procedure parent)]
                          [(rec-hash) (record-type-hash-procedure parent)]
@@ -2432,7 +2434,7 @@
 
 ; base exception
 (define-values (&exn make-exn exn? exn-who exn-message)
-  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #t #t #(who message))])
+  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #f #t #((immutable who) (immutable message)))])
     (values &exn
             (record-constructor &exn)
             (record-predicate &exn)
@@ -2441,7 +2443,7 @@
 
 ; argument exception
 (define-values (&argument make-argument-exn argument-exn? argument-exn-expect argument-exn-actual)
-  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &argument
             (record-constructor &argument)
             (record-predicate &argument)
@@ -2450,7 +2452,7 @@
 
 ; arity exception
 (define-values (&arity make-arity-exn arity-exn? arity-exn-expect arity-exn-actual)
-  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &arity
             (record-constructor &arity)
             (record-predicate &arity)
@@ -2459,7 +2461,7 @@
 
 ; range exception
 (define-values (&range make-range-exn range-exn? range-exn-value range-exn-description range-exn-lower range-exn-upper range-exn-index)
-  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #(value description lower upper index))])
+  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #((immutable value) (immutable description) (immutable lower) (immutable upper) (immutable index)))])
     (values &range
             (record-constructor &range)
             (record-predicate &range)
@@ -2471,7 +2473,7 @@
 
 ; missing exception
 (define-values (&missing make-missing-exn missing-exn? missing-exn-description missing-exn-value missing-exn-key)
-  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #(description value key))])
+  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #((immutable description) (immutable value) (immutable key)))])
     (values &missing
             (record-constructor &missing)
             (record-predicate &missing)
@@ -2481,7 +2483,7 @@
 
 ; syntax exception
 (define-values (&syntax make-syntax-exn syntax-exn? syntax-exn-form syntax-exn-subform)
-  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #(form subform))])
+  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #((immutable form) (immutable subform)))])
     (values &syntax
             (record-constructor &syntax)
             (record-predicate &syntax)
-- 
2.43.0


From afa3579dfaf409b837b954fd6e10cca5f893eba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 14/91] fix: a record type inherits the writer of its parent

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index e6c8ede..d375c3a 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1321,7 +1321,7 @@
                   (record-type-hash-procedure rtd rec-hash)
                   (void))
               (if rec-writer
-                  (record-writer rec-writer)
+                  (record-writer rtd rec-writer)
                   (void)))
             (void))
         rtd))))
-- 
2.43.0


From e61ed0f6e4cd1292058b83df00cb0e4b235747d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 15/91] fix: record-type-field-mutable? names itself in its
 range error

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index d375c3a..2cec0aa 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1353,7 +1353,7 @@
             (let-values ([(fields) ($record-type-field-names rtd)])
               (if (< idx ($vector-length fields))
                   ($record-type-field-mutable? rtd idx)
-                  (raise-range-error 'record-type-field-mutable rtd "" 0 ($vector-length fields) idx)))
+                  (raise-range-error 'record-type-field-mutable? rtd "" 0 ($vector-length fields) idx)))
             (raise-argument-error 'record-type-field-mutable? "non-negative integer?" idx))
         (raise-argument-error 'record-type-field-mutable? "record-type-name?" rtd))))
 
-- 
2.43.0


From eba458f4b72f1841c89a13509fe0ab3b6d3b7349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 16/91] fix: a record constructor names itself in its arity
 error

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 2cec0aa..38ea904 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1398,7 +1398,7 @@
                              (lambda args
                                (if (= (length args) size)
                                    ($make-record rtd args)
-                                   (raise-arity-error make size (length args))))])
+                                   (raise-arity-error (procedure-name make) size (length args))))])
               make)
             (raise-argument-error
               'record-constructor
-- 
2.43.0


From 984b9b4cf9a917186a1411844624923a4791a147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 17/91] fix: hashtable-size names itself in its contract error

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 38ea904..ad64c74 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1492,7 +1492,7 @@
   (lambda (ht)
     (if (hashtable? ht)
         ($hashtable-size ($hashtable-store ht))
-        (raise-argument-error 'hashtable-set! "hashtable?" ht))))
+        (raise-argument-error 'hashtable-size "hashtable?" ht))))
 
 (define-values (hashtable-entries hashtable-keys hashtable-vals)
   (let-values ([(check-arg!)
-- 
2.43.0


From 811e217eea61063bd08ce6709d5b84c2cd84afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 18/91] fix: hashtable-keys and hashtable-vals name themselves
 in contract errors

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index ad64c74..487092c 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1518,7 +1518,7 @@
           (loop ($hashtable-cells store) 0)))
       ; hashtable-keys
       (lambda (ht)
-        (check-arg! 'hashtable-entries ht)
+        (check-arg! 'hashtable-keys ht)
         (letrec-values ([(store) ($hashtable-store ht)]
                         [(size) ($hashtable-size store)]
                         [(keys) ($make-vector size #f)]
@@ -1531,7 +1531,7 @@
           (loop ($hashtable-cells store) 0)))
       ; hashtable-vals
       (lambda (ht)
-        (check-arg! 'hashtable-entries ht)
+        (check-arg! 'hashtable-vals ht)
         (letrec-values ([(store) ($hashtable-store ht)]
                         [(size) ($hashtable-size store)]
                         [(vals) ($make-vector size #f)]
-- 
2.43.0


From f1b00eade25a11c475c6b9a84a7d0880aae4851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 19/91] fix: an invalid hash function is reported as such

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 487092c..036a1fd 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1557,7 +1557,7 @@
         (let-values ([(h) (hash x)])
           (if (fixnum? h)
               h
-              (raise-argument-error 'do-hash "invalid hash function" hash h))))]
+              (error #f "invalid hash function" hash h))))]
      [(incr-size!)
       (lambda (ht store)
         (let-values ([(size) (add1 ($hashtable-size store))]
-- 
2.43.0


From 9cc25ba34b541946b1ffd8e517992ca72311413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 20/91] fix: hashtable-contains?, hashtable-update! and
 hashtable-delete! name themselves in errors

---
 src/core/s/prelude.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 036a1fd..649cf2c 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1678,7 +1678,7 @@
       (lambda (ht k)
         (if (hashtable? ht)
             (1/hashtable-contains? ht k)
-            (non-hashtable-error 'hashtable-set! ht)))
+            (non-hashtable-error 'hashtable-contains? ht)))
       ; hashtable-ref
       (case-lambda
         [(ht k)
@@ -1700,7 +1700,7 @@
          (if (hashtable? ht)
              (if (procedure? updater)
                  (1/hashtable-update! ht k updater
-                                      (lambda () (no-key! 'hashtable-update ht k)))
+                                      (lambda () (no-key! 'hashtable-update! ht k)))
                  (raise-argument-error 'hashtable-update! "procedure?" updater))
              (non-hashtable-error 'hashtable-update! ht))]
         [(ht k updater default)
@@ -1713,7 +1713,7 @@
       (lambda (ht k)
         (if (hashtable? ht)
             (1/hashtable-cell-delete! ht k)
-            (non-hashtable-error 'hashtable-set! ht))))))
+            (non-hashtable-error 'hashtable-delete! ht))))))
 
 (define-values (hashtable-clear!)
   (lambda (ht)
-- 
2.43.0


From 393aac9645f4a924fa8bbd63d14d297633fe6815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 21/91] fix: the default record equality and hash procedures
 can be set and read

---
 src/core/s/prelude.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 649cf2c..bebfd9c 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1730,7 +1730,7 @@
     [() ($default-record-equal-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-equal-procedure proc)
+         ($default-record-equal-procedure-set! proc)
          (raise-argument-error 'default-record-equal-procedure
                                "procedure?"
                                proc))]))
@@ -1738,10 +1738,10 @@
 ; TODO: thread parameter
 (define-values (default-record-hash-procedure)
   (case-lambda
-    [() ($default-record-equal-procedure)]
+    [() ($default-record-hash-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-hash-procedure proc)
+         ($default-record-hash-procedure-set! proc)
          (raise-argument-error 'default-record-hash-procedure
                                "procedure?"
                                proc))]))
-- 
2.43.0


From 96aa678e2264b7350a6665bc167066f2e743da2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 22/91] fix: record-type and record-writer procedures report a
 non-descriptor

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index bebfd9c..8b5f75b 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1765,7 +1765,7 @@
                              (errorf 'do-table-ref "unknown mode: ~a" mode))))]
                   [(non-rtd-error)
                    (lambda (who v)
-                     (raise-argument-error who "record-type-desriptor?" v_))]
+                     (raise-argument-error who "record-type-descriptor?" v))]
                   [(non-proc-error)
                    (lambda (who v)
                      (raise-argument-error who "procedure?" v))])
@@ -1821,7 +1821,7 @@
   (letrec-values ([($writer-table) (make-eq-hashtable)]
                   [(non-rtd-error)
                    (lambda (who v)
-                     (raise-argument-error who "record-type-desriptor?" v_))]
+                     (raise-argument-error who "record-type-descriptor?" v))]
                   [(non-proc-error)
                    (lambda (who v)
                      (raise-argument-error who "procedure?" v))])
-- 
2.43.0


From b7b2533b048093949099d4cd091f2b1fe7bee43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 23/91] fix: record-hash-procedure names itself in its contract
 error

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 8b5f75b..ed42785 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1815,7 +1815,7 @@
     (if ($record-value? a)
         (let-values ([(rtd) ($record-rtd a)])
           (record-type-hash-procedure rtd))
-        (raise-argument-error 'record-equal-procedure "record?" a))))
+        (raise-argument-error 'record-hash-procedure "record?" a))))
 
 (define-values (record-writer)
   (letrec-values ([($writer-table) (make-eq-hashtable)]
-- 
2.43.0


From f8310e41bd9796152ca1c8b03ddbcd2ac4375979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 24/91] fix: equal-hash works on hashtables

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index ed42785..4048989 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1927,7 +1927,7 @@
                         (if (box? x)
                             (loop (unbox x) (+ hc 410225874))
                             (if (hashtable? x)
-                                (loop (hashtable->list x) hc)
+                                (loop (hashtable-size x) hc)
                                 (if ($record-value? x)
                                     (let-values ([(proc) (record-hash-procedure x)])
                                       (if proc
-- 
2.43.0


From 752636dcd04487fe897587f8b8c8ff40444ab5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 25/91] fix: hashtables of different size are not equal?

---
 src/core/s/prelude.min | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 4048989..3b81d3a 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1857,7 +1857,9 @@
                   [(equal-hashtable?)
                    (lambda (a b)
                      (if (eq? (hashtable-hash-proc a) (hashtable-hash-proc b))
-                         (if (eq? (hashtable-equiv-proc a) (hashtable-equiv-proc b))
+                         (if (if (eq? (hashtable-equiv-proc a) (hashtable-equiv-proc b))
+                                 (= (hashtable-size a) (hashtable-size b))
+                                 #f)
                              (let-values ([(kas vas) (hashtable-entries a)])
                                (andmap
                                  (lambda (i)
-- 
2.43.0


From 91d30224e388489448475486bfc26c3dfe10b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 26/91] fix: put-char reports the value that is not an output
 port

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 3b81d3a..b31fb6a 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1968,7 +1968,7 @@
         (if (char? ch)
             ($put-char p ch)
             (raise-argument-error 'put-char "char?" ch))
-        (raise-argument-error 'put-char "output-port?" ch))))
+        (raise-argument-error 'put-char "output-port?" p))))
 
 (define-values (put-string)
   (let-values ([(non-output-port-error)
-- 
2.43.0


From 91123298d7279a11b7c700d427f471b6ddcd3021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 27/91] fix: put-string reports the string in range errors and
 the count that was rejected

---
 src/core/s/prelude.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index b31fb6a..f869302 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1986,8 +1986,8 @@
                     (if (<= start len)
                         (if (<= (+ start n) len)
                             ($put-string p s start n)
-                            (raise-range-error 'put-string str "end" 0 (+ len 1) (+ start n)))
-                        (raise-range-error 'put-string str "start" 0 (+ len 1) start))))])
+                            (raise-range-error 'put-string s "end" 0 (+ len 1) (+ start n)))
+                        (raise-range-error 'put-string s "start" 0 (+ len 1) start))))])
     (case-lambda
       [(p s)
        (if (output-port? p)
@@ -2009,7 +2009,7 @@
                (if (non-negative-integer? start)
                    (if (non-negative-integer? n)
                        (1/put-string p s start n)
-                       (non-integer-error start))
+                       (non-integer-error n))
                    (non-integer-error start))
                (non-string-error s))
            (non-output-port-error p))])))
-- 
2.43.0


From 1c4881ff1e3dab5cc9b215b5bfcd5c5435b7f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 28/91] fix: write-char writes the character

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index f869302..db224af 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2024,12 +2024,12 @@
   (case-lambda
     [(c)
      (if (char? c)
-         ($write-char c (current-output-port))
+         ($put-char (current-output-port) c)
          (raise-argument-error 'write-char "char?" c))]
     [(c p)
      (if (char? c)
          (if (output-port? p)
-             ($write-char c p)
+             ($put-char p c)
              (raise-argument-error 'write-char "output-port?" p))
          (raise-argument-error 'write-char "char?" c))]))
 
-- 
2.43.0


From 30b54bd4879cd0b9677b95c5c3fbe6fb8b788584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 29/91] fix: boxes are printed as boxes

---
 src/core/s/prelude.min | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index db224af..5763dbf 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2046,6 +2046,7 @@
                      (if (char? x) (if d? (put-char p x) (wrchar x p))
                      (if (string? x) (if d? (put-string p x) (wrstring x p))
                      (if (vector? x) (wrvector x d? p)
+                     (if (box? x) (begin (put-string p "#&") (wr (unbox x) d? p))
                      (if (eof-object? x) (put-string p "#<eof>")
                      (if (void? x) (put-string p "#<void>")
                      (if (input-port? x) (put-string p "#<input port>")
@@ -2055,7 +2056,7 @@
                      (if (environment? x) (put-string p "#<environment>")
                      (if (record-type-descriptor? x) (wrrtd x d? p)
                      (if ($record-value? x) (wrrecord x d? p)
-                     (put-string p "#<garbage>")))))))))))))))))))]
+                     (put-string p "#<garbage>"))))))))))))))))))))]
                   ; character writer
                   [(wrchar)
                    (lambda (x p)
-- 
2.43.0


From 149d3455182955d9aae45415c7d0de97c68ba412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 30/91] fix: format accepts the directive ~~

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 5763dbf..db65611 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2198,7 +2198,7 @@
                                                                 (if (eq? nc #\%)
                                                                     (loop (+ n 2) args)
                                                                     (if (eq? nc #\~)
-                                                                        (loop (+ n 2) xs)
+                                                                        (loop (+ n 2) args)
                                                                         (errorf who "unknown format directive `~a`" nc)))))))
                                                   (loop (+ n 1) args)))))])
                        (loop 0 '())))]                                                
-- 
2.43.0


From 6f908132e30791161b03b7e0218594530e4be6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 31/91] fix: fprintf reports the value that is not an output
 port

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index db65611..c8eede7 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2251,7 +2251,7 @@
             (begin
               (check-format! 'fprintf fmt args)
               (do-format p fmt args))
-            (raise-argument-error 'fprintf "output port?" fmt)))
+            (raise-argument-error 'fprintf "output-port?" p)))
       ; printf
       (lambda (fmt . args)
         (check-format! 'printf fmt args)
-- 
2.43.0


From e379f63a21e5ad0f0bca99d940c01837e2bef3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 32/91] fix: environment-ref reports missing keys and bad
 arguments

---
 src/core/s/prelude.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index c8eede7..d9c0b02 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2371,11 +2371,11 @@
                                        (fail)
                                        fail)
                                    v))
-                             (raise-arugment-error 'environment-ref "symbol?" k))
-                         (raise-arugment-error 'environment-ref "environment?" env)))])        
+                             (raise-argument-error 'environment-ref "symbol?" k))
+                         (raise-argument-error 'environment-ref "environment?" env)))])        
     (case-lambda
       [(env k)
-       (1/environment-ref env k default-fail)]
+       (1/environment-ref env k (lambda () (default-fail env k)))]
       [(env k fail)
        (1/environment-ref env k fail)])))
 
-- 
2.43.0


From 4c5311c2b8c15b2fc028fbe31f07f3b4d3b072b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 33/91] fix: raise-missing-error names itself in its contract
 errors

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index d9c0b02..2c96c50 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2627,8 +2627,8 @@
     (if (if who (symbol? who) #t)
         (if (string? descr)
             (raise (make-missing-exn who (format "~a not found" descr) descr x k))
-            (raise-argument-error 'raise-argument-error "string?" descr))
-        (raise-argument-error 'raise-argument-error "symbol? or #f" who))))
+            (raise-argument-error 'raise-missing-error "string?" descr))
+        (raise-argument-error 'raise-missing-error "symbol? or #f" who))))
 
 (define-values (raise-syntax-error)
   (let-values ([($raise-syntax-error)
-- 
2.43.0


From 12d66d42fe2916b0b4d7ecf5005a6173372adaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 34/91] fix: raise-syntax-error names itself in its contract
 errors

---
 src/core/s/prelude.min | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 2c96c50..ad45d63 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2643,10 +2643,10 @@
                                       msg
                                       (if (syntax? stx) ($syntax->datum stx) #f)
                                       (if (syntax? sub-stx) ($syntax->datum sub-stx) #f)))
-                                  (raise-argument-error 'syntax-error "syntax or #f" sub-stx))
-                              (raise-argument-error 'syntax-error "syntax or #f" stx))
-                          (raise-argument-error 'syntax-error "string" msg))
-                      (raise-argument-error 'syntax-error "symbol? or #f" who)))])
+                                  (raise-argument-error 'raise-syntax-error "syntax or #f" sub-stx))
+                              (raise-argument-error 'raise-syntax-error "syntax or #f" stx))
+                          (raise-argument-error 'raise-syntax-error "string" msg))
+                      (raise-argument-error 'raise-syntax-error "symbol? or #f" who)))])
     (case-lambda
       [(who msg) ($raise-syntax-error who msg #f #f)]
       [(who msg stx) ($raise-syntax-error who msg stx #f)]
-- 
2.43.0


From 3ddd19741abc87e9b0a335c8e1908fd56dfad1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 35/91] fix: substring reports start > end with a complete
 range error

---
 src/boot/s/boot.min            | 2 +-
 src/library/private/string.min | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 08c26a0..d2a62f8 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -59,7 +59,7 @@
 (define-values (set-intersect) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-intersect) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((s) (car ss)) ((i) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! i x)) (set->list s)) (values)))) (letrec-values (((loop) (lambda (ss i) (if (null? ss) i (if (= (set-count i) 0) i (let-values () (letrec-values (((s) (car ss)) ((i*) (make-set)) (() (let-values () (for-each (lambda (x) (if (set-member? s x) (let-values () (set-add! i* x)) (void))) (set->list i)) (values)))) (loop (cdr ss) i*)))))))) (loop (cdr ss) i))))))))
 (define-values (set-subtract) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-subtract) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? st x) (let-values () (set-remove! diff x)) (void))) diff) (values)))) (loop (cdr sts)))))))) (loop sts)))))
 (define-values (set-symmetric-difference) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-symmetric-difference) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? diff x) (set-remove! diff x) (set-add! diff x))) st) (values)))) (loop (cdr sts)))))))) (loop sts)))))
-(define-values (substring) (lambda (str start end) (letrec-values (((len) (string-length str)) (() (let-values () (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (values))) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 end))) (values))) ((sstr) (make-string (- end start)))) (letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) (loop 0 start)))))
+(define-values (substring) (lambda (str start end) (letrec-values (((len) (string-length str)) (() (let-values () (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (values))) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 (+ end 1) start))) (values))) ((sstr) (make-string (- end start)))) (letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) (loop 0 start)))))
 (define-values (identifier?) (lambda (t) (if (syntax? t) (symbol? (syntax-e t)) #f)))
 (define-values (free-identifier=?) (lambda (a b) (if (not (identifier? a)) (raise-argument-error (quote free-identifier=?) "identifier?" a) (if (not (identifier? b)) (raise-argument-error (quote free-identifier=?) "identifier?" b) (eq? (syntax-e a) (syntax-e b))))))
 (define-values (stx-null?) (lambda (t) (if (null? t) #t (if (syntax? t) (null? (syntax-e t)) #f))))
diff --git a/src/library/private/string.min b/src/library/private/string.min
index 183f2fc..eae8fb6 100644
--- a/src/library/private/string.min
+++ b/src/library/private/string.min
@@ -16,7 +16,7 @@
   (unless (<= end len)
     (raise-range-error 'substring str "end" 0 (+ len 1) end))
   (unless (<= start end)
-    (raise-range-error 'substring str "start" 0 end))
+    (raise-range-error 'substring str "start" 0 (+ end 1) start))
   (define sstr (make-string (- end start)))
   (let loop ([i 0] [n start])
     (cond
-- 
2.43.0


From 89fad3291214f16df62c8a22a258227cd4f09a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 36/91] fix: substring checks its string before taking its
 length

---
 src/boot/s/boot.min            | 2 +-
 src/library/private/string.min | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index d2a62f8..6108b58 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -59,7 +59,7 @@
 (define-values (set-intersect) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-intersect) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((s) (car ss)) ((i) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! i x)) (set->list s)) (values)))) (letrec-values (((loop) (lambda (ss i) (if (null? ss) i (if (= (set-count i) 0) i (let-values () (letrec-values (((s) (car ss)) ((i*) (make-set)) (() (let-values () (for-each (lambda (x) (if (set-member? s x) (let-values () (set-add! i* x)) (void))) (set->list i)) (values)))) (loop (cdr ss) i*)))))))) (loop (cdr ss) i))))))))
 (define-values (set-subtract) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-subtract) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? st x) (let-values () (set-remove! diff x)) (void))) diff) (values)))) (loop (cdr sts)))))))) (loop sts)))))
 (define-values (set-symmetric-difference) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-symmetric-difference) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? diff x) (set-remove! diff x) (set-add! diff x))) st) (values)))) (loop (cdr sts)))))))) (loop sts)))))
-(define-values (substring) (lambda (str start end) (letrec-values (((len) (string-length str)) (() (let-values () (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (values))) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 (+ end 1) start))) (values))) ((sstr) (make-string (- end start)))) (letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) (loop 0 start)))))
+(define-values (substring) (lambda (str start end) (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (letrec-values (((len) (string-length str)) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 (+ end 1) start))) (values))) ((sstr) (make-string (- end start)))) (letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) (loop 0 start)))))
 (define-values (identifier?) (lambda (t) (if (syntax? t) (symbol? (syntax-e t)) #f)))
 (define-values (free-identifier=?) (lambda (a b) (if (not (identifier? a)) (raise-argument-error (quote free-identifier=?) "identifier?" a) (if (not (identifier? b)) (raise-argument-error (quote free-identifier=?) "identifier?" b) (eq? (syntax-e a) (syntax-e b))))))
 (define-values (stx-null?) (lambda (t) (if (null? t) #t (if (syntax? t) (null? (syntax-e t)) #f))))
diff --git a/src/library/private/string.min b/src/library/private/string.min
index eae8fb6..2d5973c 100644
--- a/src/library/private/string.min
+++ b/src/library/private/string.min
@@ -6,9 +6,9 @@
 (export substring)
 
 (define (substring str start end)
-  (define len (string-length str))
   (unless (string? str)
     (raise-argument-error 'substring "string?" str))
+  (define len (string-length str))
   (unless (non-negative-integer? start)
     (raise-argument-error 'substring "non-negative-integer?" start))
   (unless (non-negative-integer? end)
-- 
2.43.0


From 30c75399b133f18938d3a30de7aff472141ee130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 37/91] fix: record-type-add-generic! reports errors under its
 own name

---
 src/boot/s/boot.min              |  2 +-
 src/library/private/generics.min | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 6108b58..e07fb5c 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -32,7 +32,7 @@
 (define-values (non-rtd-error) (lambda (who v) (raise-argument-error who "record-type-descriptor?" v)))
 (define-values ($generics-type-method-names) (lambda (generics) (if ($generics-type? generics) (void) (let-values () (non-generics-type-error (quote $generics-type-method-names) generics))) (map car ($generics-type-methods generics))))
 (define-values ($record-generics) (make-hashtable))
-(define-values (record-type-add-generic!) (lambda (rtd generic impls) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote record-type-add-generics!) generic))) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error (quote record-type-add-generics!) rtd))) (if (if (list? impls) (andmap procedure? impls) #f) (void) (let-values () (raise-argument-error (quote record-type-add-generics!) "list of procedures" impls))) (letrec-values (((names) ($generics-type-method-names generic)) (() (let-values () (if (= (length names) (length impls)) (void) (let-values () (error (quote record-type-add-generics!) "number of procedures does not match interface" (format "expected: ~a" (length names)) (format "got: ~a" (length impls))))) (values))) (() (let-values () (for-each (lambda (entry impl) (letrec-values (((id) (car entry)) ((formals) (cdr entry)) ((expected-arity) (letrec-values (((loop) (lambda (formals i) (if (null? formals) i (if (symbol? formals) (cons i #f) (loop (cdr formals) (+ i 1))))))) (loop formals 0))) ((arity) (procedure-arity impl))) (if (equal? arity expected-arity) (void) (let-values () (error (quote record-type-add-generics!) "method implementation does not match formals" (format "method definition: ~a ~a" id formals) (format "actual arity: ~a" arity)))))) ($generics-type-methods generic) impls) (values)))) (hashtable-set! $record-generics rtd (if (hashtable-contains? $record-generics rtd) (cons (cons generic impls) (hashtable-ref $record-generics rtd)) (list (cons generic impls)))))))
+(define-values (record-type-add-generic!) (lambda (rtd generic impls) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote record-type-add-generic!) generic))) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error (quote record-type-add-generic!) rtd))) (if (if (list? impls) (andmap procedure? impls) #f) (void) (let-values () (raise-argument-error (quote record-type-add-generic!) "list of procedures" impls))) (letrec-values (((names) ($generics-type-method-names generic)) (() (let-values () (if (= (length names) (length impls)) (void) (let-values () (error (quote record-type-add-generic!) "number of procedures does not match interface" (format "expected: ~a" (length names)) (format "got: ~a" (length impls))))) (values))) (() (let-values () (for-each (lambda (entry impl) (letrec-values (((id) (car entry)) ((formals) (cdr entry)) ((expected-arity) (letrec-values (((loop) (lambda (formals i) (if (null? formals) i (if (symbol? formals) (cons i #f) (loop (cdr formals) (+ i 1))))))) (loop formals 0))) ((arity) (procedure-arity impl))) (if (equal? arity expected-arity) (void) (let-values () (error (quote record-type-add-generic!) "method implementation does not match formals" (format "method definition: ~a ~a" id formals) (format "actual arity: ~a" arity)))))) ($generics-type-methods generic) impls) (values)))) (hashtable-set! $record-generics rtd (if (hashtable-contains? $record-generics rtd) (cons (cons generic impls) (hashtable-ref $record-generics rtd)) (list (cons generic impls)))))))
 (define-values (generics-accessor) (lambda (generic name) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote generics-accessor) generic))) (if (symbol? name) (void) (let-values () (raise-argument-error (quote generics-accessor) "symbol?" generic))) (letrec-values (((idx) (index-of name ($generics-type-method-names generic))) (() (let-values () (if idx (void) (let-values () (error (quote generics-accessor) "method name not associated with generics interface" name))) (values)))) (lambda (rtd) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error #f rtd))) (letrec-values (((rtd-generics) (hashtable-ref $record-generics rtd (quote ()))) ((maybe-entry) (assoc generic rtd-generics))) (if maybe-entry (list-ref (cdr maybe-entry) idx) (error (quote generics-accessor) "generic not associated with record type" ($generics-type-name generic) rtd)))))))
 (define-values (generic-instance?) (lambda (generic) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote generic-instance?) generic))) (lambda (rtd) (if (record-type-descriptor? rtd) (let-values (((generics) (hashtable-ref $record-generics rtd #f))) (if generics (assoc generic generics) #f)) #f))))
 (define-values (gen:equal+hash gen:equal+hash?) (let-values (((:gen) ($make-generics-type (quote equal+hash) (quote ((equal-proc a b rec-equal?) (hash-proc a rec-hash)))))) (values :gen (generic-instance? :gen))))
diff --git a/src/library/private/generics.min b/src/library/private/generics.min
index 8790c30..d3d12c4 100644
--- a/src/library/private/generics.min
+++ b/src/library/private/generics.min
@@ -45,18 +45,18 @@
 (define (record-type-add-generic! rtd generic impls)
   ;; validate argument types
   (unless ($generics-type? generic)
-    (non-generics-type-error 'record-type-add-generics! generic))
+    (non-generics-type-error 'record-type-add-generic! generic))
   (unless (record-type-descriptor? rtd)
-    (non-rtd-error 'record-type-add-generics! rtd))
+    (non-rtd-error 'record-type-add-generic! rtd))
   (unless (and (list? impls) (andmap procedure? impls))
-    (raise-argument-error 'record-type-add-generics!
+    (raise-argument-error 'record-type-add-generic!
                           "list of procedures"
                           impls))
   
   ;; validate number of methods
   (define names ($generics-type-method-names generic))
   (unless (= (length names) (length impls))
-    (error 'record-type-add-generics!
+    (error 'record-type-add-generic!
            "number of procedures does not match interface"
            (format "expected: ~a" (length names))
            (format "got: ~a" (length impls))))
@@ -74,7 +74,7 @@
 
       (define arity (procedure-arity impl))
       (unless (equal? arity expected-arity)
-        (error 'record-type-add-generics!
+        (error 'record-type-add-generic!
                "method implementation does not match formals"
                (format "method definition: ~a ~a" id formals)
                (format "actual arity: ~a" arity))))
-- 
2.43.0


From 38572a00cbabce3d1a02dbd5c9e1b9c5a498abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:20 +0000
Subject: [PATCH 38/91] fix: generics-accessor shows the name that is not a
 symbol

---
 src/boot/s/boot.min              | 2 +-
 src/library/private/generics.min | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index e07fb5c..c0a1629 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -33,7 +33,7 @@
 (define-values ($generics-type-method-names) (lambda (generics) (if ($generics-type? generics) (void) (let-values () (non-generics-type-error (quote $generics-type-method-names) generics))) (map car ($generics-type-methods generics))))
 (define-values ($record-generics) (make-hashtable))
 (define-values (record-type-add-generic!) (lambda (rtd generic impls) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote record-type-add-generic!) generic))) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error (quote record-type-add-generic!) rtd))) (if (if (list? impls) (andmap procedure? impls) #f) (void) (let-values () (raise-argument-error (quote record-type-add-generic!) "list of procedures" impls))) (letrec-values (((names) ($generics-type-method-names generic)) (() (let-values () (if (= (length names) (length impls)) (void) (let-values () (error (quote record-type-add-generic!) "number of procedures does not match interface" (format "expected: ~a" (length names)) (format "got: ~a" (length impls))))) (values))) (() (let-values () (for-each (lambda (entry impl) (letrec-values (((id) (car entry)) ((formals) (cdr entry)) ((expected-arity) (letrec-values (((loop) (lambda (formals i) (if (null? formals) i (if (symbol? formals) (cons i #f) (loop (cdr formals) (+ i 1))))))) (loop formals 0))) ((arity) (procedure-arity impl))) (if (equal? arity expected-arity) (void) (let-values () (error (quote record-type-add-generic!) "method implementation does not match formals" (format "method definition: ~a ~a" id formals) (format "actual arity: ~a" arity)))))) ($generics-type-methods generic) impls) (values)))) (hashtable-set! $record-generics rtd (if (hashtable-contains? $record-generics rtd) (cons (cons generic impls) (hashtable-ref $record-generics rtd)) (list (cons generic impls)))))))
-(define-values (generics-accessor) (lambda (generic name) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote generics-accessor) generic))) (if (symbol? name) (void) (let-values () (raise-argument-error (quote generics-accessor) "symbol?" generic))) (letrec-values (((idx) (index-of name ($generics-type-method-names generic))) (() (let-values () (if idx (void) (let-values () (error (quote generics-accessor) "method name not associated with generics interface" name))) (values)))) (lambda (rtd) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error #f rtd))) (letrec-values (((rtd-generics) (hashtable-ref $record-generics rtd (quote ()))) ((maybe-entry) (assoc generic rtd-generics))) (if maybe-entry (list-ref (cdr maybe-entry) idx) (error (quote generics-accessor) "generic not associated with record type" ($generics-type-name generic) rtd)))))))
+(define-values (generics-accessor) (lambda (generic name) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote generics-accessor) generic))) (if (symbol? name) (void) (let-values () (raise-argument-error (quote generics-accessor) "symbol?" name))) (letrec-values (((idx) (index-of name ($generics-type-method-names generic))) (() (let-values () (if idx (void) (let-values () (error (quote generics-accessor) "method name not associated with generics interface" name))) (values)))) (lambda (rtd) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error #f rtd))) (letrec-values (((rtd-generics) (hashtable-ref $record-generics rtd (quote ()))) ((maybe-entry) (assoc generic rtd-generics))) (if maybe-entry (list-ref (cdr maybe-entry) idx) (error (quote generics-accessor) "generic not associated with record type" ($generics-type-name generic) rtd)))))))
 (define-values (generic-instance?) (lambda (generic) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote generic-instance?) generic))) (lambda (rtd) (if (record-type-descriptor? rtd) (let-values (((generics) (hashtable-ref $record-generics rtd #f))) (if generics (assoc generic generics) #f)) #f))))
 (define-values (gen:equal+hash gen:equal+hash?) (let-values (((:gen) ($make-generics-type (quote equal+hash) (quote ((equal-proc a b rec-equal?) (hash-proc a rec-hash)))))) (values :gen (generic-instance? :gen))))
 (define-values (gen:custom-write gen:custom-write?) (let-values (((:gen) ($make-generics-type (quote custom-write) (quote ((write-proc v port mode)))))) (values :gen (generic-instance? :gen))))
diff --git a/src/library/private/generics.min b/src/library/private/generics.min
index d3d12c4..ee557ae 100644
--- a/src/library/private/generics.min
+++ b/src/library/private/generics.min
@@ -92,7 +92,7 @@
   (unless ($generics-type? generic)
     (non-generics-type-error 'generics-accessor generic))
   (unless (symbol? name)
-    (raise-argument-error 'generics-accessor "symbol?" generic))
+    (raise-argument-error 'generics-accessor "symbol?" name))
   (define idx (index-of name ($generics-type-method-names generic)))
   (unless idx
     (error 'generics-accessor
-- 
2.43.0


From 2e19ed20e0fdd244743f58c07b22d58525fdef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:28 +0000
Subject: [PATCH 39/91] fix: set-arg stores the register it names

---
 src/core/c/eval.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 5cfa275..9e6ef3b 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -564,7 +564,8 @@ application:
         store_reg(tc, tregs, ins, minim_cadr(ins), v0);
     } else if (ty == set_arg_symbol) {
         // set-arg
-        tc_frame_ref(tc, minim_fixnum(minim_cadr(ins))) = tregs[0];
+        v0 = load_reg(tc, tregs, ins, minim_car(minim_cddr(ins)));
+        tc_frame_ref(tc, minim_fixnum(minim_cadr(ins))) = v0;
     } else if (ty == get_tenv_symbol) {
         // (get-tenv <dst reg>)
         store_reg(tc, tregs, ins, minim_cadr(ins), tc_tenv(tc));
-- 
2.43.0


From f12568268704c345581254ba1609f69572e4c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:24 +0000
Subject: [PATCH 40/91] fix: stack limit is computed in bytes and a frame
 survives stack growth

---
 src/boot/c/boot.c |  2 +-
 src/core/c/eval.c | 20 ++++++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/boot/c/boot.c b/src/boot/c/boot.c
index dadd89f..f8cefa9 100644
--- a/src/boot/c/boot.c
+++ b/src/boot/c/boot.c
@@ -16,6 +16,6 @@ void minim_boot_init() {
     tc_stack_base(tc) = GC_alloc(stack_size);
     tc_stack_size(tc) = stack_size;
     tc_sfp(tc) = tc_stack_base(tc);
-    tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+    tc_esp(tc) = ptr_add(tc_stack_base(tc), tc_stack_size(tc) - stack_slop);
     current_tc() = tc;
 }
diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 9e6ef3b..2aed328 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -79,7 +79,7 @@ static int stack_overflowp(mobj tc, size_t size) {
 static void grow_stack(mobj tc, size_t size) {
     mobj srecord;
     void *stack;
-    size_t req, actual;
+    size_t req, actual, frame_size;
 
     // compute required space
     req = size + stack_slop;
@@ -88,13 +88,15 @@ static void grow_stack(mobj tc, size_t size) {
     // allocate stack record for previous segment
     srecord = Mcached_stack(tc_stack_base(tc), tc_stack_link(tc), tc_stack_size(tc), tc_ccont(tc));
 
-    // allocate new stack segment
+    // allocate new stack segment and move the current frame
+    frame_size = (1 + tc_ac(tc)) * ptr_size;
     stack = GC_alloc(actual);
+    memcpy(stack, tc_sfp(tc), frame_size);
     tc_stack_base(tc) = stack;
     tc_stack_link(tc) = srecord;
     tc_stack_size(tc) = actual;
     tc_sfp(tc) = tc_stack_base(tc);
-    tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+    tc_esp(tc) = ptr_add(tc_stack_base(tc), tc_stack_size(tc) - stack_slop);
 }
 
 void reserve_stack(mobj tc, size_t argc) {
@@ -680,18 +682,24 @@ restore_frame:
             return tregs[0];
         }
 
+        istream = tc_ra(tc);
         tc_stack_base(tc) = cache_stack_base(srecord);
         tc_stack_size(tc) = cache_stack_len(srecord);
         tc_stack_link(tc) = cache_stack_prev(srecord);
         tc_sfp(tc) = tc_stack_base(tc);
-        tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+        tc_esp(tc) = ptr_add(tc_stack_base(tc), tc_stack_size(tc) - stack_slop);
         cc = cache_stack_ret(srecord);
+        if (istream == NULL) {
+            // the entry frame was moved to another segment
+            tc_env(tc) = penv;
+            return tregs[0];
+        }
     } else {
         cc = tc_ccont(tc);
+        istream = tc_ra(tc);
     }
 
-    // restore instruction stream and environment
-    istream = tc_ra(tc);
+    // restore environment
     tc_env(tc) = continuation_env(cc);
 
     // update thread parameters
-- 
2.43.0


From 304ff73d139a595d5db56f1847e965bfe597f6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:24 +0000
Subject: [PATCH 41/91] fix: call-with-values makes room on the stack for the
 values

---
 src/core/c/eval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 2aed328..ab54f7f 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -250,6 +250,7 @@ static mobj do_values(mobj tc) {
 static void values_to_args(mobj tc, mobj x) {
     if (minim_valuesp(x)) {
         // multi-valued
+        reserve_stack(tc, tc_ac(tc) + tc_vc(tc));
         for (size_t i = 0; i < tc_vc(tc); i++)
             push_arg(tc, tc_values(tc)[i]);
     } else {
-- 
2.43.0


From 7e16f4ce4597783009fe7f858d11b952c7eef483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:24 +0000
Subject: [PATCH 42/91] fix: a nested evaluation leaves the state of the
 running one intact

---
 src/core/c/eval.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index ab54f7f..f0897d9 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -715,6 +715,38 @@ not_procedure:
 }
 
 mobj eval_expr(mobj tc, mobj expr) {
-    mobj code = compile_expr(expr);
-    return eval_istream(tc, minim_code_it(code));
+    mobj code, result, cp, link, *base, *sfp, *esp;
+    size_t ac, size;
+    jmp_buf reentry;
+
+    code = compile_expr(expr);
+
+    // stash the state of the current evaluation, if any
+    ac = tc_ac(tc);
+    cp = tc_cp(tc);
+    sfp = tc_sfp(tc);
+    esp = tc_esp(tc);
+    base = tc_stack_base(tc);
+    size = tc_stack_size(tc);
+    link = tc_stack_link(tc);
+    memcpy(&reentry, tc_reentry(tc), sizeof(jmp_buf));
+
+    // evaluate on a new stack
+    tc_stack_base(tc) = GC_alloc(stack_size);
+    tc_stack_size(tc) = stack_size;
+    tc_stack_link(tc) = minim_null;
+    tc_sfp(tc) = tc_stack_base(tc);
+    tc_esp(tc) = ptr_add(tc_stack_base(tc), tc_stack_size(tc) - stack_slop);
+    result = eval_istream(tc, minim_code_it(code));
+
+    // restore
+    tc_ac(tc) = ac;
+    tc_cp(tc) = cp;
+    tc_sfp(tc) = sfp;
+    tc_esp(tc) = esp;
+    tc_stack_base(tc) = base;
+    tc_stack_size(tc) = size;
+    tc_stack_link(tc) = link;
+    memcpy(tc_reentry(tc), &reentry, sizeof(jmp_buf));
+    return result;
 }
-- 
2.43.0


From c193cc7da8ac58f2be2afeaaa740e410f335ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:57 +0000
Subject: [PATCH 43/91] fix: a character object is allocated with the size of
 its layout

---
 src/core/c/char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/char.c b/src/core/c/char.c
index 9a64b43..b46fd1f 100644
--- a/src/core/c/char.c
+++ b/src/core/c/char.c
@@ -5,7 +5,7 @@
 #include "../minim.h"
 
 mobj Mchar(mchar c) {
-    mobj o = GC_alloc_atomic(sizeof(minim_char_size));
+    mobj o = GC_alloc_atomic(minim_char_size);
     minim_type(o) = MINIM_OBJ_CHAR;
     minim_char(o) = c;
     return o;
-- 
2.43.0


From 54f7d6efbf1c849b84e1dc41b8f9c227b0fa0f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:57 +0000
Subject: [PATCH 44/91] fix: equal-hash tests for a string before reading one

---
 src/core/c/hashtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/hashtable.c b/src/core/c/hashtable.c
index 1987771..461f086 100644
--- a/src/core/c/hashtable.c
+++ b/src/core/c/hashtable.c
@@ -237,7 +237,7 @@ mobj equal_hash_proc(mobj x) {
     size_t hc;
     if (minim_symbolp(x)) {
         hc = hash_bytes(minim_symbol(x), strlen(minim_symbol(x)), hash_init);
-    } else if (minim_string(x)) {
+    } else if (minim_stringp(x)) {
         hc = hash_bytes(minim_string(x), strlen(minim_string(x)), hash_init);
     } else {
         hc = eq_hash(x);
-- 
2.43.0


From 6d812031a7659070bc7b310bc54c5256dbdd595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:57 +0000
Subject: [PATCH 45/91] fix: a symbol interned while the table grows goes to
 the bucket of the new size

---
 src/core/c/symbol.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/c/symbol.c b/src/core/c/symbol.c
index 589a607..e4afbd8 100644
--- a/src/core/c/symbol.c
+++ b/src/core/c/symbol.c
@@ -173,6 +173,7 @@ mobj intern_symbol(intern_table *itab, const char *sym) {
 
     // update table
     resize_if_needed(itab);
+    idx = h % itab->alloc;
     intern_table_insert(itab, idx, obj);
     return obj;
 }
-- 
2.43.0


From e63a00ffbe0edf590fba1f315078be909dd72bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:57 +0000
Subject: [PATCH 46/91] fix: procedure-rename names and returns the copy

---
 src/core/c/procedure.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/c/procedure.c b/src/core/c/procedure.c
index 4369ca8..09fe503 100644
--- a/src/core/c/procedure.c
+++ b/src/core/c/procedure.c
@@ -52,6 +52,6 @@ mobj procedure_rename_proc(mobj proc, mobj id) {
         minim_closure_ref(proc2, i) = minim_closure_ref(proc, i);
     }
 
-    minim_closure_name(proc) = id;
-    return proc;
+    minim_closure_name(proc2) = id;
+    return proc2;
 }
-- 
2.43.0


From 0addcd1a0adae6d96ba01c69741e4b49df18a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:57 +0000
Subject: [PATCH 47/91] fix: string->list stops before the terminator

---
 src/core/c/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index 8de8d31..b2a728f 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -103,7 +103,7 @@ mobj list_to_string(mobj xs) {
 mobj string_to_list(mobj s) {
     // (-> string (listof char))
     mobj lst = minim_null;
-    for (long i = strlen(minim_string(s)); i >= 0; i--)
+    for (long i = (long) strlen(minim_string(s)) - 1; i >= 0; i--)
         lst = Mcons(Mchar(minim_string(s)[i]), lst);
     return lst;
 }
-- 
2.43.0


From 69859bd3b4ba695cb3bf01529dd8abbf80e57140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:57 +0000
Subject: [PATCH 48/91] fix: string->number keeps all bits of a fixnum

---
 src/core/c/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index b2a728f..ce6a957 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -71,7 +71,7 @@ mobj number_to_string(mobj n) {
 
 mobj string_to_number(mobj s) {
     // (-> string number)
-    return Mfixnum(atoi(minim_string(s)));
+    return Mfixnum(strtol(minim_string(s), NULL, 10));
 }
 
 mobj symbol_to_string(mobj s) {
-- 
2.43.0


From c5bdfcba483fb09f65ee042139855c08149ca195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:57 +0000
Subject: [PATCH 49/91] fix: modulo of an exact multiple is zero

---
 src/core/c/number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/number.c b/src/core/c/number.c
index bb160ab..c36e20b 100644
--- a/src/core/c/number.c
+++ b/src/core/c/number.c
@@ -54,7 +54,7 @@ mobj fx_modulo(mobj x, mobj y) {
     mfixnum xv = minim_fixnum(x);
     mfixnum yv = minim_fixnum(y);
     mfixnum z = xv % yv;
-    if ((xv < 0) != (yv < 0))
+    if (z != 0 && (xv < 0) != (yv < 0))
         z += yv;
     return Mfixnum(z);
 }
-- 
2.43.0


From 6176b9ee3fbbf7fc3f7487212a6f5aeafefc4da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 50/91] fix: a lambda form without arguments or body is bad
 syntax

---
 src/core/c/check.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/c/check.c b/src/core/c/check.c
index 3dad68e..0173db7 100644
--- a/src/core/c/check.c
+++ b/src/core/c/check.c
@@ -132,7 +132,12 @@ static void check_begin(mobj expr) {
 // Already assumes `expr` is `(<name> . <???>)`
 // Check: `expr` must be `(<name> <datum> ...)`
 static void check_lambda(mobj expr) {
-    mobj args = minim_cadr(expr);
+    mobj args;
+
+    if (!minim_consp(minim_cdr(expr)) || !minim_consp(minim_cddr(expr)))
+        bad_syntax_exn(expr);
+
+    args = minim_cadr(expr);
     for (; minim_consp(args); args = minim_cdr(args)) {
         assert_identifier(expr, minim_car(args));
     }
-- 
2.43.0


From 68a209f3c653612eaf6acba939884635b09f82dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 51/91] fix: a malformed case-lambda clause is bad syntax

---
 src/core/c/check.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/c/check.c b/src/core/c/check.c
index 0173db7..3a406d0 100644
--- a/src/core/c/check.c
+++ b/src/core/c/check.c
@@ -152,7 +152,13 @@ static void check_lambda(mobj expr) {
 static void check_case_lambda(mobj expr) {
     mobj clauses, args;
 
+    if (!minim_consp(minim_cdr(expr)))
+        bad_syntax_exn(expr);
+
     for (clauses = minim_cdr(expr); minim_consp(clauses); clauses = minim_cdr(clauses)) {
+        if (!minim_consp(minim_car(clauses)) || !minim_consp(minim_cdar(clauses)))
+            bad_syntax_exn(expr);
+
         for (args = minim_caar(clauses); minim_consp(args); args = minim_cdr(args))
             assert_identifier(expr, minim_car(args));
 
-- 
2.43.0


From 91894e83f1826e3eae4559736c53fd393a53664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 52/91] fix: an empty begin form does not crash the evaluator

---
 src/core/c/check.c  | 3 +++
 src/core/c/jitopt.c | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/c/check.c b/src/core/c/check.c
index 3a406d0..c069cd4 100644
--- a/src/core/c/check.c
+++ b/src/core/c/check.c
@@ -225,6 +225,9 @@ loop:
             // begin form
             check_begin(expr);
             expr = minim_cdr(expr);
+            if (minim_nullp(expr))
+                return;
+
             while (!minim_nullp(minim_cdr(expr))) {
                 check_expr(minim_car(expr));
                 expr = minim_cdr(expr);
diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 5597205..fcc5a27 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -354,7 +354,7 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
         } else if (minim_car(e) == mvvalues_symbol) {
             // (mv-call (mv-values e ...) consumer) => (consumer e ...)
             return jit_opt_L1(Mcons(consumer, minim_cdr(e)));
-        } else if (minim_car(e) == begin_symbol) {
+        } else if (minim_car(e) == begin_symbol && minim_consp(minim_cdr(e))) {
             // (mv-call (begin e ... e_last) consumer)
             // => (begin e ... (mv-call e_last consumer))
             hd = tl = Mlist1(begin_symbol);
-- 
2.43.0


From d328fb6b252b075c51ab3cdc4c01e486f8cd8da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 53/91] fix: the operator of an application is checked too

---
 src/core/c/check.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/check.c b/src/core/c/check.c
index c069cd4..2047505 100644
--- a/src/core/c/check.c
+++ b/src/core/c/check.c
@@ -238,7 +238,7 @@ loop:
         } else if (minim_listp(expr)) {
             // application
             check_begin(expr);
-            for (expr = minim_cdr(expr); !minim_nullp(expr); expr = minim_cdr(expr)) {
+            for (; !minim_nullp(expr); expr = minim_cdr(expr)) {
                 check_expr(minim_car(expr));
             }
         } else {
-- 
2.43.0


From 1b5c848e1e2bef51e892d5697198a824da459d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 54/91] fix: internal forms are not accepted as source
 expressions

---
 src/core/c/check.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/c/check.c b/src/core/c/check.c
index 2047505..56bf7ef 100644
--- a/src/core/c/check.c
+++ b/src/core/c/check.c
@@ -235,6 +235,12 @@ loop:
 
             expr = minim_car(expr);
             goto loop;
+        } else if (head == mvcall_symbol ||
+            head == mvlet_symbol ||
+            head == mvvalues_symbol ||
+            head == make_unbound_symbol) {
+            // only produced by the optimizer
+            bad_syntax_exn(expr);
         } else if (minim_listp(expr)) {
             // application
             check_begin(expr);
-- 
2.43.0


From 786384867e39e29d0eadb857760de9e1368420b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 55/91] fix: call-with-values is optimized only when applied to
 two arguments

---
 src/core/c/jitopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index fcc5a27..2f1a071 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -440,7 +440,7 @@ mobj jit_opt_L1(mobj expr) {
             } else if (head == values_symbol) {
                 // values form
                 return jit_opt_L1_values(expr);
-            } else if (head == call_with_values_symbol) {
+            } else if (head == call_with_values_symbol && list_length(expr) == 3) {
                 // call-with-values form
                 return jit_opt_L1_mvcall(
                     Mlist3(
-- 
2.43.0


From 49732d0c2d0bc07418278808017e25f89576d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 56/91] fix: eval checks the syntax of its argument

---
 src/core/c/eval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index f0897d9..d0815d8 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -584,6 +584,7 @@ application:
         arity_mismatch_exn(tc_cp(tc), tc_ac(tc));
     } else if (ty == do_eval_symbol) {
         // do-eval
+        check_expr(tregs[0]);
         tregs[0] = Mclosure(Menv(0), compile_expr(tregs[0]), 0);
     } else if (ty == do_raise_symbol) {
         // do-raise
-- 
2.43.0


From fc7024b287fddda3ed49427ef876b24d7ff72f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 57/91] fix: immediate application with missing arguments keeps
 its arity check

---
 src/core/c/jitopt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 2f1a071..8dac077 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -522,11 +522,11 @@ static mobj jit_opt_L2_app(mobj expr) {
         // => `(mv-let (values args ...) (ids ...) (begin body ...)`
         args = minim_cdr(expr);
         body = minim_cddr(hd);
-        if (minim_nullp(args)) {
+        if (minim_nullp(args) && minim_nullp(minim_cadr(hd))) {
             expr = minim_nullp(minim_cdr(body))
                 ? minim_car(body)
                 : Mcons(begin_symbol, body);
-        } else if (minim_nullp(minim_cdr(args))) {
+        } else if (minim_consp(args) && minim_nullp(minim_cdr(args))) {
             expr = Mlist4(
                 mvlet_symbol,
                 minim_car(args),
-- 
2.43.0


From c7d955139aa7497c9dfd2ad3f67714a2938faf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 58/91] fix: sub-expressions of an mv-call are optimized

---
 src/core/c/jitopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 8dac077..58f0358 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -394,7 +394,7 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
             ));
         }
 
-        return expr;
+        return Mlist3(mvcall_symbol, jit_opt_L1(e), jit_opt_L1(consumer));
     } else {
         // (mv-call e_lit consumer) => (consumer e_lit)
         return jit_opt_L1(Mlist2(consumer, e));
-- 
2.43.0


From 1601147778a51a18aff24d551dfb97f3b4c2cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 59/91] fix: dividing the least fixnum by -1 does not trap

---
 src/core/c/number.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/c/number.c b/src/core/c/number.c
index c36e20b..0eafc1f 100644
--- a/src/core/c/number.c
+++ b/src/core/c/number.c
@@ -41,19 +41,22 @@ mobj fx2_mul(mobj x, mobj y) {
 
 mobj fx2_div(mobj x, mobj y) {
     // (-> integer integer integer)
-    return Mfixnum(minim_fixnum(x) / minim_fixnum(y));
+    mfixnum xv = minim_fixnum(x);
+    mfixnum yv = minim_fixnum(y);
+    return Mfixnum((yv == -1) ? (mfixnum) (0 - (muptr) xv) : xv / yv);
 }
 
 mobj fx_remainder(mobj x, mobj y) {
     // (-> integer integer integer)
-    return Mfixnum(minim_fixnum(x) % minim_fixnum(y));
+    mfixnum yv = minim_fixnum(y);
+    return Mfixnum((yv == -1) ? 0 : minim_fixnum(x) % yv);
 }
 
 mobj fx_modulo(mobj x, mobj y) {
     // (-> integer integer integer)
     mfixnum xv = minim_fixnum(x);
     mfixnum yv = minim_fixnum(y);
-    mfixnum z = xv % yv;
+    mfixnum z = (yv == -1) ? 0 : xv % yv;
     if (z != 0 && (xv < 0) != (yv < 0))
         z += yv;
     return Mfixnum(z);
-- 
2.43.0


From b9bbb82072c809ac2c29e32fc2b7364c5e0b42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 60/91] fix: the first character of a token with leading digits
 or sign is kept once

---
 src/core/c/read.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 8b216bd..da9a386 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -343,9 +343,10 @@ loop:
         if (c == '-') {
             sign = -1;
             buffer[i++] = c;
-        } else if (c != '+') {
-            ungetc(c, in);
+        } else if (c == '+') {
             buffer[i++] = c;
+        } else {
+            ungetc(c, in);
         }
 
         // magnitude
@@ -375,9 +376,10 @@ read_hex:
         if (c == '-') {
             sign = -1;
             buffer[i++] = c;
-        } else if (c != '+') {
-            ungetc(c, in);
+        } else if (c == '+') {
             buffer[i++] = c;
+        } else {
+            ungetc(c, in);
         }
 
         // magnitude
-- 
2.43.0


From 01597f0b6bae58f0558469f8100621f1f64be619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 61/91] fix: a long number token does not overrun the token
 buffer

---
 src/core/c/read.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index da9a386..8315a9b 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -351,6 +351,10 @@ loop:
 
         // magnitude
         while (isdigit(c = getc(in))) {
+            if (i >= symbol_max_len - 1) {
+                minim_error("read_object", "number exceeded max length");
+            }
+
             buffer[i++] = c;
             num = (num * 10) + (c - '0');
         }
@@ -384,6 +388,10 @@ read_hex:
 
         // magnitude
         while (isxdigit(c = getc(in))) {
+            if (i >= symbol_max_len - 1) {
+                minim_error("read_object", "number exceeded max length");
+            }
+
             buffer[i++] = c;
             if ('A' <= c && c <= 'F')       num = (num * 16) + (10 + (c - 'A'));
             else if ('a' <= c && c <= 'f')  num = (num * 16) + (10 + (c - 'a'));
-- 
2.43.0


From 455f262bc11105aea7dcb4044909da85e0651774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 62/91] fix: strings and symbols leave room for their
 terminator

---
 src/core/c/read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 8315a9b..c84ab33 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -429,7 +429,7 @@ read_hex:
                 }
             }
 
-            if (i >= symbol_max_len) {
+            if (i >= symbol_max_len - 1) {
                 minim_error("read_object", "string exceeded max length");
             }
 
@@ -451,7 +451,7 @@ read_hex:
 read_symbol:
 
         while (is_symbol_char(c)) {
-            if (i >= symbol_max_len) {
+            if (i >= symbol_max_len - 1) {
                 minim_error("read_object", "symbol exceeded max length");
             }
 
-- 
2.43.0


From eb5c0414e17013900dbe04332569562b8c4a86ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 63/91] fix: a byte 0xFF in the input is not taken for its end

---
 src/core/c/read.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index c84ab33..2045c62 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -14,19 +14,19 @@ static int is_symbol_char(int c) {
     return !is_delimeter(c);
 }
 
-static void assert_not_eof(char c) {
+static void assert_not_eof(int c) {
     if (c == EOF) {
         minim_error("read_object", "unexpected end of input");
     }
 }
 
-static void assert_delimeter(char c) {
+static void assert_delimeter(int c) {
     if (!is_delimeter(c)) {
         minim_error1("read_object", "expected delimeter", Mchar(c));
     }
 }
 
-static void assert_matching_paren(char open, char closed) {
+static void assert_matching_paren(int open, int closed) {
     if (!(open == '(' && closed == ')') && 
         !(open == '[' && closed == ']') &&
         !(open == '{' && closed == '}')) {
@@ -40,7 +40,7 @@ static int peek_char(FILE *in) {
 }
 
 static void peek_expected_delimeter(FILE *in) {
-    mchar c = peek_char(in);
+    int c = peek_char(in);
     assert_delimeter(c);
 }
 
@@ -73,7 +73,7 @@ static void skip_whitespace(FILE *in) {
 }
 
 static void read_named_char(FILE *in, const char *s) {
-    mchar c;
+    int c;
     for (; *s != '\0'; s++) {
         c = getc(in);
         if (c != *s) {
@@ -186,7 +186,7 @@ static mobj read_char(FILE *in) {
     return Mchar(c);
 }
 
-static mobj read_pair(FILE *in, char open_paren) {
+static mobj read_pair(FILE *in, int open_paren) {
     mobj car, cdr;
     int c;
 
@@ -258,7 +258,7 @@ mobj read_object(FILE *in) {
     char buffer[symbol_max_len];
     long num, i, block_level;
     short sign;
-    char c;
+    int c;
 
 loop:
 
-- 
2.43.0


From 86b590f8939453de1ce212cbf1edc262af777910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 64/91] fix: the end of input inside a vector is an error

---
 src/core/c/read.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 2045c62..98aac16 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -238,11 +238,12 @@ static mobj read_vector(FILE *in) {
     l = minim_null;
     while (1) {
         skip_whitespace(in);
-        c = peek_char(in);
-        if (c == ')') {
-            read_char(in);
+        c = getc(in);
+        assert_not_eof(c);
+        if (c == ')')
             break;
-        }
+
+        ungetc(c, in);
 
         l = Mcons(read_object(in), l);
     }
-- 
2.43.0


From 9b6f8fd7c646eb6c755c761cbb2203357d689995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 65/91] fix: the end of input after a prefix or inside a form
 is an error

---
 src/core/c/read.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 98aac16..097bbdd 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -186,6 +186,16 @@ static mobj read_char(FILE *in) {
     return Mchar(c);
 }
 
+// Like `read_object`, but the end of input is an error
+static mobj read_datum(FILE *in) {
+    mobj o = read_object(in);
+    if (o == NULL) {
+        minim_error("read_object", "unexpected end of input");
+    }
+
+    return o;
+}
+
 static mobj read_pair(FILE *in, int open_paren) {
     mobj car, cdr;
     int c;
@@ -201,7 +211,7 @@ static mobj read_pair(FILE *in, int open_paren) {
     }
 
     ungetc(c, in);
-    car = read_object(in);
+    car = read_datum(in);
 
     skip_whitespace(in);
     c = fgetc(in);
@@ -210,7 +220,7 @@ static mobj read_pair(FILE *in, int open_paren) {
     if (is_cons_dot(in, c)) {
         // improper list
         peek_expected_delimeter(in);
-        cdr = read_object(in);
+        cdr = read_datum(in);
 
         skip_whitespace(in);
         c = getc(in);
@@ -245,7 +255,7 @@ static mobj read_vector(FILE *in) {
 
         ungetc(c, in);
 
-        l = Mcons(read_object(in), l);
+        l = Mcons(read_datum(in), l);
     }
 
     if (minim_nullp(l)) {
@@ -289,13 +299,13 @@ loop:
             return read_char(in);
         case '\'':
             // quote
-            return Mcons(intern("quote-syntax"), Mcons(read_object(in), minim_null));
+            return Mcons(intern("quote-syntax"), Mcons(read_datum(in), minim_null));
         case '(':
             // vector
             return read_vector(in);
         case '&':
             // vector
-            return Mbox(read_object(in));
+            return Mbox(read_datum(in));
         case 'x':
             // hex number
             c = getc(in);
@@ -305,7 +315,7 @@ loop:
             skip_whitespace(in);
             c = peek_char(in);
             assert_not_eof(c);
-            read_object(in);        // throw away
+            read_datum(in);         // throw away
             goto loop;
         case '|':
             // block comment
@@ -444,7 +454,7 @@ read_hex:
         return read_pair(in, c);
     } else if (c == '\'') {
         // quoted expression
-        return Mcons(intern("quote"), Mcons(read_object(in), minim_null));
+        return Mcons(intern("quote"), Mcons(read_datum(in), minim_null));
     } else if (is_symbol_char(c) || ((c == '+' || c == '-') && is_delimeter(peek_char(in)))) {
         // symbol
         i = 0;
-- 
2.43.0


From fcb189199451d246107bd0edacbbdce245f629e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 66/91] fix: read returns the eof object at the end of its port

---
 src/core/c/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index b6b0baa..4ba7e5e 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -174,7 +174,8 @@ mobj get_output_string(mobj port) {
 
 mobj read_proc(mobj port) {
     // (-> input-port? any/c)
-    return read_object(minim_port(port));
+    mobj o = read_object(minim_port(port));
+    return (o == NULL) ? minim_eof : o;
 }
 
 mobj read_char_proc(mobj port) {
-- 
2.43.0


From 32e70ab5b086507586b7ead84702fae94547498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 67/91] fix: truncated FASL data is an error

---
 src/core/c/fasl.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/c/fasl.c b/src/core/c/fasl.c
index 27146aa..20e9a93 100644
--- a/src/core/c/fasl.c
+++ b/src/core/c/fasl.c
@@ -72,8 +72,14 @@
 //  Reading FASL
 //
 
-#define read_fasl_type(ip)       ((mbyte) fgetc(ip))
-#define read_fasl_byte(ip)       ((mbyte) fgetc(ip))
+#define read_fasl_type(ip)       (read_fasl_byte(ip))
+
+static mbyte read_fasl_byte(FILE *in) {
+    int c = fgetc(in);
+    if (c == EOF)
+        minim_error("read_fasl", "unexpected end of input");
+    return (mbyte) c;
+}
 
 // Unserializes a word that is encoded using a variable-length
 // block encoding 7-bits of the word per byte
-- 
2.43.0


From a3f77a51242398765288451d0461103531064d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 68/91] fix: ports on the standard streams are open

---
 src/core/c/io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index 4ba7e5e..b0acd87 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -20,7 +20,7 @@ static void gc_port_dtor(void *ptr, void *data) {
 mobj Minput_port(FILE *stream) {
     mobj o = GC_alloc(minim_port_size);
     minim_type(o) = MINIM_OBJ_PORT;
-    minim_port_flags(o) = PORT_FLAG_READ;
+    minim_port_flags(o) = PORT_FLAG_OPEN | PORT_FLAG_READ;
     minim_port(o) = stream;
     GC_register_dtor(o, gc_port_dtor);
     return o;
@@ -29,7 +29,7 @@ mobj Minput_port(FILE *stream) {
 mobj Moutput_port(FILE *stream) {
     mobj o = GC_alloc(minim_port_size);
     minim_type(o) = MINIM_OBJ_PORT;
-    minim_port_flags(o) = 0x0;
+    minim_port_flags(o) = PORT_FLAG_OPEN;
     minim_port(o) = stream;
     GC_register_dtor(o, gc_port_dtor);
     return o;
-- 
2.43.0


From e8236b0c83512903d37e3a904f44bacd7e5f8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 69/91] fix: closing a closed port does not close its stream
 again

---
 src/core/c/io.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index b0acd87..ee03266 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -136,15 +136,21 @@ mobj open_output_string() {
 
 mobj close_input_port(mobj port) {
     // (-> input-port? void)
-    fclose(minim_port(port));
-    minim_port_unset(port, PORT_FLAG_OPEN);
+    if (minim_port_openp(port)) {
+        fclose(minim_port(port));
+        minim_port_unset(port, PORT_FLAG_OPEN);
+    }
+
     return minim_void;
 }
 
 mobj close_output_port(mobj port) {
     // (-> output-port? void)
-    fclose(minim_port(port));
-    minim_port_unset(port, PORT_FLAG_OPEN);
+    if (minim_port_openp(port)) {
+        fclose(minim_port(port));
+        minim_port_unset(port, PORT_FLAG_OPEN);
+    }
+
     return minim_void;
 }
 
-- 
2.43.0


From 5753c0e02f31ae5f036547699e3587a4f5aa2fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 70/91] fix: an operation on a closed port is an error

---
 src/core/c/fasl.c |  4 ++--
 src/core/c/io.c   | 37 +++++++++++++++++++++++--------------
 src/core/minim.h  |  1 +
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/core/c/fasl.c b/src/core/c/fasl.c
index 20e9a93..dcbcbfd 100644
--- a/src/core/c/fasl.c
+++ b/src/core/c/fasl.c
@@ -351,11 +351,11 @@ void write_fasl(FILE *out, mobj o) {
 
 mobj fasl_read_proc(mobj port) {
     // (-> input-port any)
-    return read_fasl(minim_port(port));
+    return read_fasl(port_stream("fasl-read", port));
 }
 
 mobj fasl_write_proc(mobj x, mobj port) {
     // (-> any output-port void)
-    write_fasl(minim_port(port), x);
+    write_fasl(port_stream("fasl-write", port), x);
     return minim_void;
 }
diff --git a/src/core/c/io.c b/src/core/c/io.c
index ee03266..0faf30b 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -17,6 +17,15 @@ static void gc_port_dtor(void *ptr, void *data) {
         fclose(minim_port(o));
 }
 
+// Returns the stream of a port that has not been closed
+FILE *port_stream(const char *who, mobj port) {
+    if (!minim_port_openp(port)) {
+        minim_error1(who, "port is closed", port);
+    }
+
+    return minim_port(port);
+}
+
 mobj Minput_port(FILE *stream) {
     mobj o = GC_alloc(minim_port_size);
     minim_type(o) = MINIM_OBJ_PORT;
@@ -160,17 +169,17 @@ mobj get_output_string(mobj port) {
     size_t len, read;
     
     // read from file
-    len = ftell(minim_port(port));
+    len = ftell(port_stream("get-output-string", port));
     if (len != 0) {
         str = Mstring2(len, 0);
-        fseek(minim_port(port), 0, SEEK_SET);
-        read = fread(minim_string(str), len, 1, minim_port(port));
+        fseek(port_stream("get-output-string", port), 0, SEEK_SET);
+        read = fread(minim_string(str), len, 1, port_stream("get-output-string", port));
         if (read != 1) {
             minim_error("get-output-string", "failed to read from");
         }
 
         // reset port, set null-terminator and return
-        rewind(minim_port(port));
+        rewind(port_stream("get-output-string", port));
         minim_string(str)[len] = '\0';
         return str;
     } else {
@@ -180,39 +189,39 @@ mobj get_output_string(mobj port) {
 
 mobj read_proc(mobj port) {
     // (-> input-port? any/c)
-    mobj o = read_object(minim_port(port));
+    mobj o = read_object(port_stream("read", port));
     return (o == NULL) ? minim_eof : o;
 }
 
 mobj read_char_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
+    mchar ch = getc(port_stream("read-char", port));
     return (ch == EOF) ? minim_eof : Mchar(ch);
 }
 
 mobj peek_char_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
-    ungetc(ch, minim_port(port));
+    mchar ch = getc(port_stream("peek-char", port));
+    ungetc(ch, port_stream("peek-char", port));
     return (ch == EOF) ? minim_eof : Mchar(ch);
 }
 
 mobj char_readyp_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
-    ungetc(ch, minim_port(port));
+    mchar ch = getc(port_stream("char-ready?", port));
+    ungetc(ch, port_stream("char-ready?", port));
     return (ch == EOF) ? minim_false : minim_true;
 }
 
 mobj put_char_proc(mobj port, mobj ch) {
     // (-> output-port? char? void)
-    putc(minim_char(ch), minim_port(port));
+    putc(minim_char(ch), port_stream("put-char", port));
     return minim_void;
 }
 
 mobj flush_output_proc(mobj port) {
     // (-> output-port? void)
-    fflush(minim_port(port));
+    fflush(port_stream("flush-output", port));
     return minim_void;
 }
 
@@ -221,7 +230,7 @@ mobj put_string_proc(mobj port, mobj str, mobj start, mobj len) {
     long start_idx = minim_fixnum(start);
     long end_idx = start_idx + minim_fixnum(len);
     for (long i = start_idx; i < end_idx; i++) {
-        putc(minim_string_ref(str, i), minim_port(port));
+        putc(minim_string_ref(str, i), port_stream("put-string", port));
     }
 
     return minim_void;
@@ -229,6 +238,6 @@ mobj put_string_proc(mobj port, mobj str, mobj start, mobj len) {
 
 mobj newline_proc(mobj port) {
     // (-> output-port? void)
-    putc('\n', minim_port(port));
+    putc('\n', port_stream("newline", port));
     return minim_void;
 }
diff --git a/src/core/minim.h b/src/core/minim.h
index 780069c..8ea2be1 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -846,6 +846,7 @@ mobj code_to_instrs(mobj code);
 
 // I/O
 
+FILE *port_stream(const char *who, mobj port);
 mobj read_object(FILE *in);
 void write_object(FILE *out, mobj o);
 
-- 
2.43.0


From 9dd9cb4637c78cd215c758065f2b79faff444dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 71/91] fix: an error before the thread context exists is
 reported

---
 src/core/c/error.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/error.c b/src/core/c/error.c
index b7ecb3a..20b59b6 100644
--- a/src/core/c/error.c
+++ b/src/core/c/error.c
@@ -4,7 +4,7 @@
 
 NORETURN static void do_error2(const char *name, const char *msg, mobj args) {
     mobj tc = current_tc();
-    if (minim_nullp(tc_ccont(tc)) || minim_falsep(tc_c_error_handler(tc))) {
+    if (tc == NULL || minim_nullp(tc_ccont(tc)) || minim_falsep(tc_c_error_handler(tc))) {
         // exception cannot be handled by runtime
         if (name) fprintf(stderr, "Error in %s: %s", name, msg);
         else fprintf(stderr, "Error: %s", msg);
-- 
2.43.0


From ba983569c5ccfac1aab85c5d21f3cf1fdd0559a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 72/91] fix: failing to read the working directory is an error

---
 src/core/c/system.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/c/system.c b/src/core/c/system.c
index 8395c7a..027ac66 100644
--- a/src/core/c/system.c
+++ b/src/core/c/system.c
@@ -73,7 +73,12 @@ void set_current_dir(const char *str) {
 }
 
 char* get_current_dir() {
-    return _get_current_dir();
+    char *path = _get_current_dir();
+    if (path == NULL) {
+        minim_error("get_current_dir", "could not read current directory");
+    }
+
+    return path;
 }
 
 char *get_file_dir(const char *realpath) {
@@ -101,7 +106,7 @@ mobj load_file(mobj tc, const char *fname){
         minim_error1("load_file", "could not open file", Mstring(fname));
     }
 
-    old_cwd = _get_current_dir();
+    old_cwd = get_current_dir();
     cwd = get_file_dir(_get_file_path(fname));
     set_current_dir(cwd);
 
-- 
2.43.0


From 71dc0c654f39f7cccd1376e9ab4aeb9d3a2e65aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 73/91] fix: failing to resolve the path of a loaded file is an
 error

---
 src/core/c/system.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/c/system.c b/src/core/c/system.c
index 027ac66..5222434 100644
--- a/src/core/c/system.c
+++ b/src/core/c/system.c
@@ -98,7 +98,7 @@ char *get_file_dir(const char *realpath) {
 
 mobj load_file(mobj tc, const char *fname){
     mobj result, expr;
-    char *old_cwd, *cwd;
+    char *old_cwd, *path;
     FILE *f;
 
     f = fopen(fname, "r");
@@ -107,8 +107,13 @@ mobj load_file(mobj tc, const char *fname){
     }
 
     old_cwd = get_current_dir();
-    cwd = get_file_dir(_get_file_path(fname));
-    set_current_dir(cwd);
+    path = _get_file_path(fname);
+    if (path == NULL) {
+        fclose(f);
+        minim_error1("load_file", "could not resolve path", Mstring(fname));
+    }
+
+    set_current_dir(get_file_dir(path));
 
     result = minim_void;
     while ((expr = read_object(f)) != NULL) {
-- 
2.43.0


From d0b3207081249230257c7ba87f3aaad26a6fd179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 74/91] fix: assigning an undefined top-level variable is an
 error

---
 src/core/c/eval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index d0815d8..b375d73 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -331,6 +331,8 @@ static mobj tl_env_lookup_cell(mobj tc, mobj id) {
 
 static void tl_env_rebind(mobj tc, mobj id, mobj val) {
     mobj cell = top_env_find(tc_tenv(tc), id);
+    if (minim_falsep(cell))
+        minim_error1("set!", "cannot set variable before its definition", id);
     minim_cdar(cell) = val;
 }
 
-- 
2.43.0


From e70def6ad69e56df53e3437550ca2ff72506436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 75/91] fix: removing a block does not pass its flags to the
 previous block

---
 src/gc/minim-gc/gc-impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 2e57cb1..e7aa8cf 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -302,7 +302,7 @@ gc_remove(gc_t *gc,
             --gc->size;
 
             // repair bucket entries as needed
-            if (pr)     gc_record_next_set(pr, r->next);
+            if (pr)     gc_record_next_set(pr, gc_record_next(r));
             else        gc->buckets[i] = gc_record_next(r);
 
             // free if needed
-- 
2.43.0


From f8efad1f99ca6ea288f9d16fd227948adf205eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 76/91] fix: freeing a block by hand runs its destructor

---
 src/gc/minim-gc/gc-impl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index e7aa8cf..8ae05d1 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -306,7 +306,11 @@ gc_remove(gc_t *gc,
             else        gc->buckets[i] = gc_record_next(r);
 
             // free if needed
-            if (destroy)    free(r);
+            if (destroy) {
+                if (r->dtor)    r->dtor(gc_record_ptr(r), NULL);
+                free(r);
+            }
+
             return;
         }
 
-- 
2.43.0


From e02b3c1550bd91cacf5a107e449fa30436ef594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 77/91] fix: collectable memory is what is allocated and not
 reachable

---
 src/gc/minim-gc/gc-impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 8ae05d1..67d152d 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -469,7 +469,7 @@ gc_get_reachable(gc_t *gc) {
 
 size_t
 gc_get_collectable(gc_t *gc) {
-    return (gc->alloc - gc_get_reachable(gc));
+    return (gc->allocs - gc_get_reachable(gc));
 }
 
 // Signals to mark phase not to descend
-- 
2.43.0


From b03cadd1892915736131236f687c475e43491b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 78/91] fix: a block is known to the collector when its
 reallocation collects

---
 src/gc/minim-gc/gc-impl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 67d152d..28c3882 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -375,10 +375,15 @@ gc_realloc_record(gc_t *gc,
     r2 = realloc(r, size + sizeof(gc_record_t));
     if (r2 == NULL)
     {
+        // the block must be visible to the collector
+        gc_add_record(gc, r);
         gc_collect(gc);
+        gc_remove(gc, gc_record_ptr(r), 0);
         r2 = realloc(r, size + sizeof(gc_record_t));
-        if (r2 == NULL)
+        if (r2 == NULL) {
+            gc_add_record(gc, r);
             return NULL;
+        }
     }
 
     r2->next = NULL;
-- 
2.43.0


From 6214bca1f7c0930788768d8b086bbf3393dd5afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 79/91] fix: a failed allocation is not entered into the block
 table

---
 src/gc/minim-gc/gc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gc/minim-gc/gc.c b/src/gc/minim-gc/gc.c
index d98ac6a..756ffe7 100644
--- a/src/gc/minim-gc/gc.c
+++ b/src/gc/minim-gc/gc.c
@@ -32,6 +32,9 @@ void *GC_alloc_opt(size_t size,
     
     // allocate
     r = gc_alloc_record(main_gc, size, (gc_dtor_t) dtor, (gc_mark_t) mrk);
+    if (!r)
+        return NULL;
+
     gc_add_record(main_gc, r);
     return gc_record_ptr(r);
 }
@@ -47,6 +50,9 @@ void *GC_calloc_opt(size_t nmem,
     
     // allocate
     r = gc_calloc_record(main_gc, nmem, size, (gc_dtor_t) dtor, (gc_mark_t) mrk);
+    if (!r)
+        return NULL;
+
     gc_add_record(main_gc, r);
     return gc_record_ptr(r);
 }
-- 
2.43.0


From f93f2e42f7df8bb367c190555fd2a7cee4f50ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 80/91] fix: nested closures are resolved in the compilation
 they belong to

---
 src/core/c/jitcompile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index 4f31bc8..24d4a02 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -206,7 +206,7 @@ static mobj compile_case_lambda2(mobj expr, mobj env, mobj fvs, mobj bounds, int
     list_set_tail(ins, Mlist2(label, Mlist1(do_arity_error_symbol)));
 
     // resolve references
-    reloc = resolve_refs(env, ins);
+    reloc = resolve_refs(proc_env, ins);
 
     // register JIT block
     code = write_code(ins, reloc, arity);
-- 
2.43.0


From 2b7401205a84345c3397f2de774e56e9ede371d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 81/91] fix: multiple values in non-tail position leave the
 pending arguments alone

---
 src/core/c/jitcompile.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index 24d4a02..b5b1cd5 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -298,22 +298,31 @@ static mobj compile_mvlet(mobj expr, mobj env, int tailp) {
 }
 
 static mobj compile_mvvalues(mobj expr, mobj env, int tailp) {
-    mobj vals, ins;
-    
-    vals = minim_cdr(expr);
-    if (minim_nullp(vals)) {
-        ins = Mlist1(Mlist1(do_values_symbol));
+    mobj vals, ins, label;
+
+    // the values need a frame of their own if not in tail position
+    if (tailp) {
+        ins = minim_null;
     } else {
-        ins = Mlist1(Mlist2(check_stack_symbol, Mfixnum(list_length(vals))));
-        for (; !minim_nullp(vals); vals = minim_cdr(vals)) {
-            list_set_tail(ins, compile_expr2(minim_car(vals), env, 0));
-            list_set_tail(ins, Mlist1(Mlist1(push_symbol)));
-        }
+        label = scope_cenv_make_label(env);
+        ins = Mlist1(Mlist2(save_cc_symbol, label));
+    }
 
-        list_set_tail(ins, Mlist2(Mlist1(do_values_symbol), Mlist1(clear_frame_symbol)));
+    vals = minim_cdr(expr);
+    ins = list_append2(ins, Mlist1(Mlist2(check_stack_symbol, Mfixnum(list_length(vals)))));
+    for (; !minim_nullp(vals); vals = minim_cdr(vals)) {
+        list_set_tail(ins, compile_expr2(minim_car(vals), env, 0));
+        list_set_tail(ins, Mlist1(Mlist1(push_symbol)));
     }
 
-    return with_tail_ret(ins, tailp);
+    list_set_tail(ins, Mlist2(Mlist1(do_values_symbol), Mlist1(ret_symbol)));
+
+    // need a label to return to if not in tail position
+    if (!tailp) {
+        list_set_tail(ins, Mlist1(label));
+    }
+
+    return ins;
 }
 
 static mobj compile_begin(mobj expr, mobj env, int tailp) {
-- 
2.43.0


From 3b81cf9d1a398b3e6937804e8776bc445b67b697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:36 +0000
Subject: [PATCH 82/91] fix: pushing a continuation frame checks for stack
 space

---
 src/core/c/eval.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index b375d73..02c7937 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -132,6 +132,9 @@ static void push_frame(mobj tc, mobj pc) {
     mobj cc;
     size_t size;
 
+    // frames of nested operators are pushed without any other check
+    maybe_grow_stack(tc, 1);
+
     // get current continuation and frame size
     cc = tc_ccont(tc);
     size = 1 + tc_ac(tc);
-- 
2.43.0


From 7f3e2f1617fcd4deb24260225610d0814535c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:41 +0000
Subject: [PATCH 83/91] fix: consumers with a rest argument are not turned into
 let bindings

---
 src/core/c/jitopt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 58f0358..79bf7d6 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -383,7 +383,8 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
 
         if (minim_consp(consumer) &&
             minim_car(consumer) == lambda_symbol &&
-            minim_consp(minim_cadr(consumer))) {
+            minim_consp(minim_cadr(consumer)) &&
+            minim_listp(minim_cadr(consumer))) {
             // (mv-call e (lambda (id ...) body) => (mv-let e (id ...) body)
             mobj body = minim_cddr(consumer);
             return jit_opt_L1(Mlist4(
-- 
2.43.0


From e1b038704d892a0c5e0bb5fec4f7ce975eb25451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:20 +0000
Subject: [PATCH 84/91] fix: only argument-less calls of an argument-less
 producer are inlined by mv-call

---
 src/core/c/jitopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 79bf7d6..e048f67 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -340,7 +340,7 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
     if (minim_consp(e)) {
         if (minim_consp(minim_car(e)) && minim_caar(e) == lambda_symbol) {
             producer = minim_car(e);
-            if (minim_nullp(minim_cadr(producer))) {
+            if (minim_nullp(minim_cadr(producer)) && minim_nullp(minim_cdr(e))) {
                 // producer is `(lambda () e ...)`
                 body = minim_cddr(producer);
                 if (minim_nullp(minim_cdr(body))) {
-- 
2.43.0


From 8af1b09e782a93ff21cae95cb721310e14f4285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:44 +0000
Subject: [PATCH 85/91] fix: core form keywords are not variable references

---
 src/core/c/check.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/core/c/check.c b/src/core/c/check.c
index 56bf7ef..8a8c7af 100644
--- a/src/core/c/check.c
+++ b/src/core/c/check.c
@@ -2,6 +2,23 @@
 
 #include "../minim.h"
 
+static int core_keywordp(mobj e) {
+    return e == define_values_symbol ||
+           e == setb_symbol ||
+           e == lambda_symbol ||
+           e == case_lambda_symbol ||
+           e == let_values_symbol ||
+           e == letrec_values_symbol ||
+           e == begin_symbol ||
+           e == if_symbol ||
+           e == quote_symbol ||
+           e == quote_syntax_symbol ||
+           e == mvcall_symbol ||
+           e == mvlet_symbol ||
+           e == mvvalues_symbol ||
+           e == make_unbound_symbol;
+}
+
 static void assert_identifier(mobj expr, mobj id) {
     if (!minim_symbolp(id)) {
         minim_error2(
@@ -250,6 +267,9 @@ loop:
         } else {
             minim_error1("", "malformed application", expr);
         }
+    } else if (core_keywordp(expr)) {
+        // keyword in a position where a variable is expected
+        minim_error1(minim_symbol(expr), "bad syntax", expr);
     } else if (minim_truep(expr) ||
         minim_falsep(expr) ||
         minim_fixnump(expr) ||
-- 
2.43.0


From a8091506069573645b7c88bcb6c81da85ebe08db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:51 +0000
Subject: [PATCH 86/91] fix: the arity of a case-lambda procedure is always a
 valid arity

---
 src/core/c/jitcompile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index b5b1cd5..a2e0e7d 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -35,7 +35,7 @@ static mobj update_arity(mobj arity, size_t req_arity, int restp) {
             if (restp) {
                 return Mcons(Mfixnum(req_arity), minim_false);
             } else {
-                return Mcons(Mfixnum(req_arity), arity);
+                return Mlist2(Mfixnum(req_arity), arity);
             }
         }
     } else {
@@ -43,6 +43,8 @@ static mobj update_arity(mobj arity, size_t req_arity, int restp) {
         if (req_arity > minim_fixnum(minim_car(arity))) {
             if (minim_falsep(minim_cdr(arity))) {
                 return arity;
+            } else if (minim_nullp(minim_cdr(arity))) {
+                return Mcons(minim_car(arity), Mcons(Mfixnum(req_arity), restp ? minim_false : minim_null));
             } else {
                 return Mcons(minim_car(arity), update_arity(minim_cdr(arity), req_arity, restp));
             }
-- 
2.43.0


From 83a9aa2fdaa4a3db61d261cf9d447e2eb3ec8ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:02 +0000
Subject: [PATCH 87/91] fix: a later clause with fewer required arguments and a
 rest argument lowers the arity

---
 src/core/c/jitcompile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index a2e0e7d..61ac9c8 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -56,7 +56,7 @@ static mobj update_arity(mobj arity, size_t req_arity, int restp) {
             }
         } else {
             if (restp) {
-                return Mcons(minim_car(arity), minim_false);
+                return Mcons(Mfixnum(req_arity), minim_false);
             } else {
                 return Mcons(Mfixnum(req_arity), arity);
             }
-- 
2.43.0


From d2684243ee5c121418b10b837826cad7a42ad942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:51 +0000
Subject: [PATCH 88/91] fix: make-string with a NUL character left the
 characters of the string uninitialised

---
 src/core/c/string.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index ce6a957..ea0d332 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -21,13 +21,9 @@ mobj Mstring(const char *s) {
 mobj Mstring2(long len, mchar c) {
     mobj o = GC_alloc(minim_string_size);
     minim_type(o) = MINIM_OBJ_STRING;
-    if (c == 0) {
-        minim_string(o) = GC_calloc_atomic((len + 1), sizeof(char));
-    } else {
-        minim_string(o) = GC_alloc_atomic((len + 1) * sizeof(char));
-        for (long i = 0; i < len; i++)
-            minim_string(o)[i] = c;
-    }
+    minim_string(o) = GC_alloc_atomic((len + 1) * sizeof(char));
+    for (long i = 0; i < len; i++)
+        minim_string(o)[i] = c;
 
     minim_string(o)[len] = '\0';
     return o;
-- 
2.43.0


From 5b694994386cc6f532d74712fdc6106b0c4917ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:57 +0000
Subject: [PATCH 89/91] fix: an empty vector is written as #() and not as #)

---
 src/core/s/prelude.min | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index ad45d63..6cf26fe 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2113,17 +2113,17 @@
                   ; vector writer
                   [(wrvector)
                    (lambda (x d? p)
-                     (put-char p #\#)
+                     (put-string p "#(")
                      (letrec-values ([(n) (vector-length x)]
                                      [(loop)
-                                      (lambda (i sep)
+                                      (lambda (i)
                                         (if (>= i n)
                                             (void)
                                             (begin
-                                              (put-char p sep)
+                                              (if (> i 0) (put-char p #\space) (void))
                                               (wr (vector-ref x i) d? p)
-                                              (loop (+ i 1) #\space))))])
-                       (loop 0 lparen))
+                                              (loop (+ i 1)))))])
+                       (loop 0))
                      (put-char p rparen))]
                   ; record type writer
                   [(wrrtd)
-- 
2.43.0


From 73ff14921236abb348f805fdb7e1f87ed9e44d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:57 +0000
Subject: [PATCH 90/91] fix: the reader accepts every string escape that write
 produces

---
 src/core/c/read.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 097bbdd..bf09a2a 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -429,6 +429,16 @@ read_hex:
                     c = '\n';
                 } else if (c == 't') {
                     c = '\t';
+                } else if (c == 'a') {
+                    c = BEL_CHAR;
+                } else if (c == 'b') {
+                    c = BS_CHAR;
+                } else if (c == 'f') {
+                    c = FF_CHAR;
+                } else if (c == 'r') {
+                    c = CR_CHAR;
+                } else if (c == 'v') {
+                    c = VT_CHAR;
                 } else if (c == '\\') {
                     c = '\\';
                 } else if (c == '\'') {
-- 
2.43.0


From 6b583aaa05e02940eea7d0feb0787e3cc3d39b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:40 +0000
Subject: [PATCH 91/91] fix: get-output-string reports a string port whose
 position cannot be read

---
 src/core/c/io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index 0faf30b..f94c5dd 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -170,7 +170,9 @@ mobj get_output_string(mobj port) {
     
     // read from file
     len = ftell(port_stream("get-output-string", port));
-    if (len != 0) {
+    if (len == (size_t) -1) {
+        minim_error("get-output-string", "failed to read from");
+    } else if (len != 0) {
         str = Mstring2(len, 0);
         fseek(port_stream("get-output-string", port), 0, SEEK_SET);
         read = fread(minim_string(str), len, 1, port_stream("get-output-string", port));
-- 
2.43.0

