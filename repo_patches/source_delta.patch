From af1cd9d80376022fdb056aef30a880dcc3e3dfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 01/44] fix: serialise access to the cells of a funge-space

Field had no lock although native threads, other universes (MVRS F, P) and
library universes use one Field at the same time: lost writes and crashes.
---
 src/Field.cpp       | 18 ++++++++++++++----
 src/include/Field.h |  2 ++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index c29e6ca..4bfc108 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -18,7 +18,8 @@ Field::Field(std::istream& file, FileFormat fmt, size_t dim, FungeCell csize) :
 	planes(),
 	observers(),
 	dimensions(dim),
-	cellsize(csize)
+	cellsize(csize),
+	mutex()
 {
 	switch(fmt){
 		default:
@@ -44,7 +45,8 @@ Field::Field(size_t dim, FungeCell csize) :
 	planes(),
 	observers(),
 	dimensions(dim),
-	cellsize(csize)
+	cellsize(csize),
+	mutex()
 {
 
 }
@@ -230,6 +232,7 @@ void Field::reset(dim_t d, Vector& v, const Vector& start, Vector& max){
 }
 
 dim_t Field::min(size_t d) const{
+	std::lock_guard<std::mutex> lock(mutex);
 	dim_t ret = 0;
 	if(d < mins.size()){
 		ret = mins[d];
@@ -238,6 +241,7 @@ dim_t Field::min(size_t d) const{
 }
 
 dim_t Field::max(size_t d) const{
+	std::lock_guard<std::mutex> lock(mutex);
 	dim_t ret = 0;
 	if(d < maxs.size()){
 		ret = maxs[d];
@@ -246,13 +250,14 @@ dim_t Field::max(size_t d) const{
 }
 
 void Field::put(const Vector& p, inst_t v){
+	callObservers(p, v);
+	std::lock_guard<std::mutex> lock(mutex);
 	while(maxs.size() < p.size()){
 		maxs.push_back(0);
 	}
 	while(mins.size() < p.size()){
 		mins.push_back(0);
 	}
-	callObservers(p, v);
 	if(v == ' '){
 		auto find = field.find(p);
 		if(find != field.end()){
@@ -306,6 +311,7 @@ size_t Field::size() const {
 }
 
 inst_t Field::get(const Vector& p) const{
+	std::lock_guard<std::mutex> lock(mutex);
 	inst_t ret = ' ';
 	auto find = field.find(p);
 	if(find != field.end()){
@@ -327,11 +333,15 @@ const std::vector<inst_t>& Field::hasPlanes() const{
 }
 
 void Field::addObserver(std::function<void(const Vector&, inst_t)> cb){
+	std::lock_guard<std::mutex> lock(mutex);
 	observers.push_back(cb);
 }
 
 void Field::callObservers(const Vector& v, inst_t i) const{
-	for(auto cb : observers){
+	std::unique_lock<std::mutex> lock(mutex);
+	auto list = observers;
+	lock.unlock();
+	for(auto cb : list){
 		cb(v, i);
 	}
 }
diff --git a/src/include/Field.h b/src/include/Field.h
index b0b8474..7680bce 100644
--- a/src/include/Field.h
+++ b/src/include/Field.h
@@ -9,6 +9,7 @@
 #include "Vector.h"
 #include "funge_types.h"
 #include <iostream>
+#include <mutex>
 #include <unordered_map>
 #include <vector>
 #include <functional>
@@ -131,6 +132,7 @@ class Field {
 		std::vector<std::function<void(const Vector&, inst_t)>> observers;
 		size_t dimensions;
 		FungeCell cellsize;
+		mutable std::mutex mutex;
 		
 		void parseBeq(std::istream& file);
 		void parseFungeLib(std::istream& file);
-- 
2.43.0


From 459d5272d20fbbb95681745aa5ad7a3c75d5f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 02/44] fix: let instructions act on the funge-space of the
 IP's current universe

Strategies and fingerprints kept a reference to the funge-space the IP was
created in, so after MVRS G or J the IP still read and wrote the old one.
---
 src/Fingerprint.cpp                 |  1 -
 src/FishStrategy.cpp                |  4 ++--
 src/FungeStrategy.cpp               |  1 -
 src/Unefunge93Strategy.cpp          |  4 ++--
 src/Unefunge98Strategy.cpp          | 10 +++++-----
 src/fingerprint/FingerprintJSTR.cpp |  4 ++--
 src/fingerprint/FingerprintORTH.cpp |  4 ++--
 src/fingerprint/FingerprintSTRN.cpp |  8 ++++----
 src/fingerprint/FingerprintTOYS.cpp | 28 ++++++++++++++--------------
 src/include/Fingerprint.h           |  1 -
 src/include/FungeStrategy.h         |  1 -
 11 files changed, 31 insertions(+), 35 deletions(-)

diff --git a/src/Fingerprint.cpp b/src/Fingerprint.cpp
index e17dc76..451132d 100644
--- a/src/Fingerprint.cpp
+++ b/src/Fingerprint.cpp
@@ -13,7 +13,6 @@ namespace Funge {
 
 Fingerprint::Fingerprint(FungeRunner& r, std::initializer_list<inst_t> in) :
 	runner(r),
-	field(r.getField()),
 	ip(r.getIP()),
 	stack(r.getStack()),
 	inst(in)
diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 5035955..9077472 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -416,7 +416,7 @@ FungeError FishStrategy::instructionGet(){
 	check_stack(top, runner.getUniverse().dimensions());
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(TOP);
-	push(TOP, static_cast<stack_t>(field.get(v+storage)));
+	push(TOP, static_cast<stack_t>(runner.getField().get(v+storage)));
 	return ERROR_NONE;
 }
 
@@ -424,7 +424,7 @@ FungeError FishStrategy::instructionPut(){
 	check_stack(top, runner.getUniverse().dimensions()+1);
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(TOP);
-	field.put(v+storage, pop(TOP));
+	runner.getField().put(v+storage, pop(TOP));
 	return ERROR_NONE;
 }
 
diff --git a/src/FungeStrategy.cpp b/src/FungeStrategy.cpp
index b920e54..97eac41 100644
--- a/src/FungeStrategy.cpp
+++ b/src/FungeStrategy.cpp
@@ -11,7 +11,6 @@ namespace Funge {
 
 FungeStrategy::FungeStrategy(FungeRunner& r) :
 	runner(r),
-	field(r.getField()),
 	ip(r.getIP()),
 	stack(r.getStack()),
 	rd(),
diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 8da81ed..304845f 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -257,14 +257,14 @@ FungeError Unefunge93Strategy::instructionNumOut(){
 FungeError Unefunge93Strategy::instructionGet(){
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(runner);
-	stack.top().push(static_cast<stack_t>(field.get(v+storage)));
+	stack.top().push(static_cast<stack_t>(runner.getField().get(v+storage)));
 	return ERROR_NONE;
 }
 
 FungeError Unefunge93Strategy::instructionPut(){
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(runner);
-	field.put(v+storage, stack.top().pop());
+	runner.getField().put(v+storage, stack.top().pop());
 	return ERROR_NONE;
 }
 
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index c1089c7..a4ae23b 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -113,7 +113,7 @@ FungeError Unefunge98Strategy::instructionAbsolute(){
 FungeError Unefunge98Strategy::instructionIterate(){
 	Vector v = ip.getPos();
 	ip.next();
-	char c = field.get(ip.getPos());
+	char c = runner.getField().get(ip.getPos());
 	while(c == ' ' || c == ';'){
 		if(c == ';'){
 			do{
@@ -246,7 +246,7 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		va += ip.getStorage();
 		std::ifstream file(filepath);
 		if(!file.fail()){
-			Vector vb = field.parse(va, file, !!(flags & FILE_IN_BINARY));
+			Vector vb = runner.getField().parse(va, file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
 			pushVector(runner, va);
 		}else{
@@ -270,7 +270,7 @@ FungeError Unefunge98Strategy::instructionFileOut(){
 		Vector vb = popVector(runner);
 		std::ofstream file(filepath);
 		if(!file.fail()){
-			field.dump(va, vb, file, !(flags & FILE_OUT_TEXT));
+			runner.getField().dump(va, vb, file, !(flags & FILE_OUT_TEXT));
 		}else{
 			ret = ERROR_UNSPEC;
 		}
@@ -390,11 +390,11 @@ void Unefunge98Strategy::pushSysInfo(int num){
 	pushes += stack.top().push((dt->tm_year << 16) + ((dt->tm_mon+1) << 8) + dt->tm_mday);
 	// Greatest non-space
 	for(size_t i = 0; i < s; ++i){
-		pushes += stack.top().push(field.max(i)-field.min(i));
+		pushes += stack.top().push(runner.getField().max(i)-runner.getField().min(i));
 	}
 	// Least non-space
 	for(size_t i = 0; i < s; ++i){
-		pushes += stack.top().push(field.min(i));
+		pushes += stack.top().push(runner.getField().min(i));
 	}
 	// Storage Offset
 	pushes += pushVector(runner, ip.getStorage());
diff --git a/src/fingerprint/FingerprintJSTR.cpp b/src/fingerprint/FingerprintJSTR.cpp
index ccbd751..e7d0e95 100644
--- a/src/fingerprint/FingerprintJSTR.cpp
+++ b/src/fingerprint/FingerprintJSTR.cpp
@@ -22,7 +22,7 @@ FungeError FingerprintJSTR::execute(inst_t cmd){
 			Vector pos = va + ip.getStorage();
 			stack.top().push(0);
 			for( ; n > 0; --n){
-				stack.top().push(field.get(pos));
+				stack.top().push(runner.getField().get(pos));
 				pos += vd;
 			}
 		} break;
@@ -32,7 +32,7 @@ FungeError FingerprintJSTR::execute(inst_t cmd){
 			Vector vd = popVector(runner);
 			Vector pos = va + ip.getStorage();
 			for( ; n > 0; --n){
-				field.put(pos, stack.top().pop());
+				runner.getField().put(pos, stack.top().pop());
 				pos += vd;
 			}
 		} break;
diff --git a/src/fingerprint/FingerprintORTH.cpp b/src/fingerprint/FingerprintORTH.cpp
index b1361ec..acddaf8 100644
--- a/src/fingerprint/FingerprintORTH.cpp
+++ b/src/fingerprint/FingerprintORTH.cpp
@@ -29,7 +29,7 @@ FungeError FingerprintORTH::execute(inst_t cmd){
 			stack_t x = stack.top().pop();
 			stack_t y = stack.top().pop();
 			Vector v({x, y});
-			stack.top().push(field.get(v));
+			stack.top().push(runner.getField().get(v));
 		} break;
 		case 'O':{
 			stack_t a = stack.top().pop();
@@ -41,7 +41,7 @@ FungeError FingerprintORTH::execute(inst_t cmd){
 			stack_t y = stack.top().pop();
 			stack_t i = stack.top().pop();
 			Vector v({x, y});
-			field.put(v, static_cast<inst_t>(i));
+			runner.getField().put(v, static_cast<inst_t>(i));
 		} break;
 		case 'S':{
 			std::string str = popString(stack.top());
diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 22d6042..9d341e0 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -44,8 +44,8 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			Vector va = popVector(runner);
 			va += ip.getStorage();
 			std::string str;
-			for( ; field.get(va); va += Vector{1}){
-				str += field.get(va);
+			for( ; runner.getField().get(va); va += Vector{1}){
+				str += runner.getField().get(va);
 			}
 			pushString(stack.top(), str);
 		} break;
@@ -87,10 +87,10 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			va += ip.getStorage();
 			std::string str = popString(stack.top());
 			for(char c : str){
-				field.put(va, c);
+				runner.getField().put(va, c);
 				va += Vector{1};
 			}
-			field.put(va, 0);
+			runner.getField().put(va, 0);
 		} break;
 		case 'R':{
 			stack_t n = stack.top().pop();
diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 29e7e69..5866124 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -60,7 +60,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(Vector({0}), size);
 				for(range.begin(); *range != range.end(); ++range){
-					field.put(dest + *range, stack.top().pop());
+					runner.getField().put(dest + *range, stack.top().pop());
 				}
 			}
 		} break;
@@ -70,7 +70,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(size, Vector({0}));
 				for(range.begin(); *range != range.end(); ++range){
-					stack.top().push(field.get(src + *range));
+					stack.top().push(runner.getField().get(src + *range));
 				}
 			}
 		} break;
@@ -90,8 +90,8 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'J':{
 			dim_t n = stack.top().pop();
 			if(n != 0){
-				dim_t ymin = field.min(1);
-				dim_t ymax = field.max(1);
+				dim_t ymin = runner.getField().min(1);
+				dim_t ymax = runner.getField().max(1);
 				dim_t x = ip.getPos().get(0);
 				copySpace(Vector({x, ymin}), Vector({1, ymax-ymin+1}), Vector({x, ymin+n}), (n < 0), true);
 			}
@@ -106,7 +106,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			Vector delta = ip.getDelta();
 			delta.left();
 			Vector v = ip.getPos() + delta;
-			stack_t a = field.get(v);
+			stack_t a = runner.getField().get(v);
 			stack.top().push(a);
 		} break;
 		case 'M':{
@@ -121,8 +121,8 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'O':{
 			dim_t n = stack.top().pop();
 			if(n != 0){
-				dim_t xmin = field.min(0);
-				dim_t xmax = field.max(0);
+				dim_t xmin = runner.getField().min(0);
+				dim_t xmax = runner.getField().max(0);
 				dim_t y = ip.getPos().get(1);
 				copySpace(Vector({xmin, y}), Vector({xmax-xmin+1, 1}), Vector({xmin+n, y}), (n < 0), true);
 			}
@@ -139,13 +139,13 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			delta.reverse();
 			Vector v = ip.getPos() + delta;
 			stack_t a = stack.top().pop();
-			field.put(v, a);
+			runner.getField().put(v, a);
 		} break;
 		case 'R':{
 			Vector delta = ip.getDelta();
 			delta.right();
 			Vector v = ip.getPos() + delta;
-			stack_t a = field.get(v);
+			stack_t a = runner.getField().get(v);
 			stack.top().push(a);
 		} break;
 		case 'S':{
@@ -155,7 +155,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(Vector({0}), size);
 				for(range.begin(); *range != range.end(); ++range){
-					field.put(dest + *range, i);
+					runner.getField().put(dest + *range, i);
 				}
 			}
 		} break;
@@ -215,7 +215,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'W':{
 			Vector v = popVector(runner);
 			stack_t value = stack.top().pop();
-			stack_t cell = field.get(v);
+			stack_t cell = runner.getField().get(v);
 			if(cell < value){
 				stack.top().push(value);
 				pushVector(runner, v);
@@ -267,10 +267,10 @@ void FingerprintTOYS::copySpace(const Vector& src, const Vector& sz, const Vecto
 		}
 		VectorRange range(start, end);
 		for(range.begin(); *range != range.end(); ++range){
-			inst_t i = field.get(src + *range);
-			field.put(dest + *range, i);
+			inst_t i = runner.getField().get(src + *range);
+			runner.getField().put(dest + *range, i);
 			if(move){
-				field.put(src + *range, ' ');
+				runner.getField().put(src + *range, ' ');
 			}
 		}
 	}
diff --git a/src/include/Fingerprint.h b/src/include/Fingerprint.h
index 95ad62b..ec8f5cf 100644
--- a/src/include/Fingerprint.h
+++ b/src/include/Fingerprint.h
@@ -24,7 +24,6 @@ class Fingerprint {
 	
 	protected:
 		FungeRunner& runner;
-		Field& field;
 		InstructionPointer& ip;
 		StackStack& stack;
 		std::vector<inst_t> inst;
diff --git a/src/include/FungeStrategy.h b/src/include/FungeStrategy.h
index ab1aec4..dda894c 100644
--- a/src/include/FungeStrategy.h
+++ b/src/include/FungeStrategy.h
@@ -27,7 +27,6 @@ class FungeStrategy {
 	
 	protected:
 		FungeRunner& runner;
-		Field& field;
 		InstructionPointer& ip;
 		StackStack& stack;
 		
-- 
2.43.0


From 1bd6e456d438be0f12638650b543ca128229c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 03/44] fix: number universes of the same name instead of
 looping for ever

The third universe of one name never got a free one, as the number tried
was always 1, and the multiverse stayed locked.
---
 src/FungeMultiverse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index e240f2e..37ceab8 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -34,7 +34,7 @@ FungeUniverse* FungeMultiverse::create(std::istream& file, Field::FileFormat fmt
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(file, fmt, cfg);
 	uni->creator = creator;
@@ -50,7 +50,7 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(cfg);
 	universes[cfg.name] = uni;
-- 
2.43.0


From d7fd320f0e5510e3e87fdc44f3cdcffe954eaba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 04/44] fix: make the IP id counter atomic

IPs split by several threads at once could get the same id.
---
 src/FungeRunner.cpp       | 2 +-
 src/include/FungeRunner.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index f5b9743..f03c255 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -17,7 +17,7 @@
 
 namespace Funge {
 
-size_t FungeRunner::count = 0;
+std::atomic<size_t> FungeRunner::count = 0;
 
 FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& delta) :
 	id(count++),
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index d71aa65..6141f55 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -12,6 +12,7 @@
 #include "FungeStateNormal.h"
 #include "FungeStateString.h"
 #include "FungeConfig.h"
+#include <atomic>
 #include <memory>
 
 namespace Funge {
@@ -57,7 +58,7 @@ class FungeRunner {
 		const FungeRunner* getParent();
 	
 	private:
-		static size_t count;
+		static std::atomic<size_t> count;
 
 		size_t id;
 		FungeUniverse* universe;
-- 
2.43.0


From 064046a7a933c4a5c17e8cdbae8122b86754ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 05/44] fix: let an IP that was stopped leave its loops

A stopped IP does not move, so one that was skipping blanks or comments
when another IP quit never left the loop, and k went on executing.
---
 src/FungeRunner.cpp        | 2 +-
 src/Unefunge98Strategy.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index f03c255..f151c3f 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -156,7 +156,7 @@ void FungeRunner::tick(){
 		if(err == ERROR_NONE || err == ERROR_SKIP){
 			ip.next();
 		}
-	} while(err == ERROR_SKIP);
+	} while(err == ERROR_SKIP && !ip.isStopped());
 }
 
 FungeError FungeRunner::execute(inst_t i){
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index a4ae23b..7eb6fae 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -81,7 +81,7 @@ FungeError Unefunge98Strategy::instructionNoop(){
 FungeError Unefunge98Strategy::instructionJumpOver(){
 	do{
 		ip.next();
-	}while(ip.get() != ';');
+	}while(ip.get() != ';' && !ip.isStopped());
 	return ERROR_SKIP;
 }
 
@@ -114,12 +114,12 @@ FungeError Unefunge98Strategy::instructionIterate(){
 	Vector v = ip.getPos();
 	ip.next();
 	char c = runner.getField().get(ip.getPos());
-	while(c == ' ' || c == ';'){
+	while((c == ' ' || c == ';') && !ip.isStopped()){
 		if(c == ';'){
 			do{
 				ip.next();
 				c = ip.get();
-			}while(c != ';');
+			}while(c != ';' && !ip.isStopped());
 			ip.next();
 			c = ip.get();
 		}else{
@@ -129,7 +129,7 @@ FungeError Unefunge98Strategy::instructionIterate(){
 	}
 	ip.setPos(v);
 	int k = stack.top().pop();
-	for(int i = 0; i < k; i++){
+	for(int i = 0; i < k && !ip.isStopped(); i++){
 		runner.execute(c);
 	}
 	if(k == 0){
-- 
2.43.0


From 7176c06c4a75f68a1ff925b7fba5c113ab626df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 06/44] fix: end a universe of native threads when its last IP
 ends

Nobody was told when the native threads of a universe had ended, so the
process never did.  The universe's thread now also leaves only with nothing
left to run, so that the destructor has no thread or IP to dispose of.
---
 src/FungeUniverse.cpp       | 37 +++++++++++++++++++++----------------
 src/include/FungeUniverse.h |  1 +
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 26d6ba6..0d2fccc 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -53,19 +53,6 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 FungeUniverse::~FungeUniverse(){
 	killAll(1);
 	thread->join();
-
-	std::lock_guard<std::mutex> guard(mutex);
-	while(threads.size() > 0){
-		std::thread* thread = threads.front();
-		thread->join();
-		delete thread;
-	}
-	while(runners.size() > 0){
-		FungeRunner* runner = runners.front();
-		delete runner;
-		runners.pop_front();
-	}
-
 	delete thread;
 }
 
@@ -94,6 +81,10 @@ void FungeUniverse::transferRunner(FungeRunner* runner){
 
 void FungeUniverse::addRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
+	if(!running){
+		delete runner;
+		return;
+	}
 	runner->setMode(config.mode);
 	if(config.threads == THREAD_NATIVE){
 		std::thread* thread = new std::thread(std::ref(*runner));
@@ -104,7 +95,8 @@ void FungeUniverse::addRunner(FungeRunner* runner){
 }
 
 void FungeUniverse::operator()(){
-	while(running){
+	bool alive = true;
+	while(alive){
 		semaphore.acquire();
 		if(config.threads == THREAD_NATIVE){
 			mutex.lock();
@@ -118,6 +110,13 @@ void FungeUniverse::operator()(){
 				threads.pop();
 				delete thread;
 			}
+			for(auto runner : runners){
+				debug.endThread(*runner);
+				delete runner;
+			}
+			runners.clear();
+			cv.notify_all();
+			alive = running;
 			mutex.unlock();
 		}else{
 			mutex.lock();
@@ -143,6 +142,7 @@ void FungeUniverse::operator()(){
 					cv.notify_all();
 				}
 			}
+			alive = running;
 			mutex.unlock();
 		}
 	}
@@ -150,7 +150,7 @@ void FungeUniverse::operator()(){
 
 void FungeUniverse::wait() const{
 	std::unique_lock<std::mutex> lock(mutex);
-	cv.wait(lock, [this]{return !isRunning();});
+	cv.wait(lock, [this]{return !hasRunners();});
 }
 
 int FungeUniverse::get() const{
@@ -169,11 +169,16 @@ void FungeUniverse::killAll(int ret){
 }
 
 bool FungeUniverse::isRunning() const{
+	std::lock_guard<std::mutex> guard(mutex);
+	return hasRunners();
+}
+
+bool FungeUniverse::hasRunners() const{
 	bool alive = (runners.size() > 0);
 	if(config.threads == THREAD_NATIVE){
 		alive = (threads.size() > 0);
 	}
-	return running && alive;
+	return alive;
 }
 
 Field& FungeUniverse::getField(){
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 954bfee..2ef035f 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -139,6 +139,7 @@ class FungeUniverse {
 		
 		explicit FungeUniverse(const FungeConfig& cfg);
 		void addRunner(FungeRunner* runner);
+		bool hasRunners() const;
 		void updateMode();
 
 		friend class FungeMultiverse;
-- 
2.43.0


From f5d12b3deb04d00ce77c293f9a9820c8d4cf3354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 07/44] fix: hold the locks while the lists of universes and
 IPs are read

They were looked through while other universes and IPs could change them.
---
 src/Defunge.cpp               |  6 +++---
 src/FungeMultiverse.cpp       | 25 +++++++++++++------------
 src/FungeUniverse.cpp         |  4 +++-
 src/include/FungeMultiverse.h |  8 ++++++--
 4 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index e02b280..4959bce 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -443,13 +443,13 @@ Defunge::Error Defunge::universeCommand(std::istringstream& iss){
 	}
 
 	std::string current = debugger->universe.getName();
-	for(auto uni = multi.cbegin(); uni != multi.cend(); ++uni){
-		if(current == uni->first){
+	for(auto uni : multi.list()){
+		if(current == uni->getName()){
 			std::cout << "* ";
 		}else{
 			std::cout << "  ";
 		}
-		std::cout << uni->first << std::endl;
+		std::cout << uni->getName() << std::endl;
 	}
 	return DEFUNGE_OK;
 }
diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index 37ceab8..dd677cf 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -62,44 +62,45 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 
 int FungeMultiverse::waitAll(){
 	bool running = false;
-	size_t count = 0;
 	do{
 		running = false;
-		for(auto next : universes){
-			const FungeUniverse* uni = next.second;
+		for(auto uni : list()){
 			if(uni->isRunning()){
 				running = true;
 			}
 			uni->wait();
-			++count;
 		}
 		// Keep looping until all universes are dead
-	}while(running || count < universes.size());
+	}while(running);
 
 	return prime->get();
 }
 
 void FungeMultiverse::killAll(int ret){
-	for(auto next : universes){
-		next.second->killAll(ret);
+	for(auto uni : list()){
+		uni->killAll(ret);
 	}
 }
 
 FungeUniverse* FungeMultiverse::operator[](std::string name){
+	std::lock_guard<std::mutex> guard(mutex);
 	if(universes.contains(name)){
 		return universes[name];
 	}
 	return nullptr;
 }
 
-std::unordered_map<std::string, FungeUniverse*>::const_iterator FungeMultiverse::cbegin() const{
-	return universes.cbegin();
-}
-std::unordered_map<std::string, FungeUniverse*>::const_iterator FungeMultiverse::cend() const{
-	return universes.cend();
+std::vector<FungeUniverse*> FungeMultiverse::list() const{
+	std::lock_guard<std::mutex> guard(mutex);
+	std::vector<FungeUniverse*> ret;
+	for(auto next : universes){
+		ret.push_back(next.second);
+	}
+	return ret;
 }
 
 size_t FungeMultiverse::size() const{
+	std::lock_guard<std::mutex> guard(mutex);
 	return universes.size();
 }
 
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 0d2fccc..9bf0b19 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -210,8 +210,9 @@ const std::vector<uint64_t>& FungeUniverse::fingerprints() const {
 }
 
 FungeRunner* FungeUniverse::getRunner(size_t id){
+	std::lock_guard<std::mutex> guard(mutex);
 	for(auto r : runners){
-		if(r->getID() == id){
+		if(r->getID() == id && r->isRunning()){
 			return r;
 		}
 	}
@@ -261,6 +262,7 @@ bool FungeUniverse::isMode(FungeMode m) const {
 }
 
 void FungeUniverse::updateMode(){
+	std::lock_guard<std::mutex> guard(mutex);
 	for(auto r : runners){
 		r->setMode(config.mode);
 	}
diff --git a/src/include/FungeMultiverse.h b/src/include/FungeMultiverse.h
index 381e4d9..dcfcdc8 100644
--- a/src/include/FungeMultiverse.h
+++ b/src/include/FungeMultiverse.h
@@ -9,6 +9,7 @@
 #include "FungeUniverse.h"
 #include <unordered_map>
 #include <mutex>
+#include <vector>
 
 namespace Funge {
 
@@ -62,8 +63,11 @@ class FungeMultiverse {
 		 */
 		FungeUniverse* operator[](std::string name);
 
-		std::unordered_map<std::string, FungeUniverse*>::const_iterator cbegin() const;
-		std::unordered_map<std::string, FungeUniverse*>::const_iterator cend() const;
+		/**
+		 * Get the universes there are now.
+		 * @return All universes.
+		 */
+		std::vector<FungeUniverse*> list() const;
 
 		/**
 		 * Get the size of the multiverse.
-- 
2.43.0


From 9947ee4539fa3607256b1fd16e31abca11e37f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 08/44] fix: hand an IP over to another universe only after its
 turn

MVRS G and J queued the IP in the target universe while it was still being
executed, so two universes ran it at once, and with native threads for good.
The process could also end while an IP was on its way, and an IP sent to a
universe that had quit was lost instead of reflected.
---
 src/FungeMultiverse.cpp             |  9 ++----
 src/FungeRunner.cpp                 |  6 +++-
 src/FungeUniverse.cpp               | 43 +++++++++++++++++++----------
 src/fingerprint/FingerprintMVRS.cpp |  9 ++++--
 src/include/FungeUniverse.h         | 19 +++++++++++--
 5 files changed, 61 insertions(+), 25 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index dd677cf..a3b63a5 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -61,17 +61,14 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 }
 
 int FungeMultiverse::waitAll(){
-	bool running = false;
+	size_t arrivals = 0;
 	do{
-		running = false;
+		arrivals = FungeUniverse::arrivals;
 		for(auto uni : list()){
-			if(uni->isRunning()){
-				running = true;
-			}
 			uni->wait();
 		}
 		// Keep looping until all universes are dead
-	}while(running);
+	}while(arrivals != FungeUniverse::arrivals);
 
 	return prime->get();
 }
diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index f151c3f..c3abe38 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -123,10 +123,14 @@ bool FungeRunner::isRunning() const {
 }
 
 void FungeRunner::operator()(){
-	while(!ip.isStopped()){
+	FungeUniverse& home = *universe;
+	while(!ip.isStopped() && universe == &home){
 		tick();
 		std::this_thread::yield();
 	}
+	if(universe != &home){
+		home.handOver(this);
+	}
 }
 
 void FungeRunner::tick(){
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 9bf0b19..fafbbaf 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -10,6 +10,8 @@
 
 namespace Funge {
 
+std::atomic<size_t> FungeUniverse::arrivals = 0;
+
 FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const FungeConfig& cfg):
 	running(true),
 	exitcode(0),
@@ -69,22 +71,34 @@ void FungeUniverse::createRunner(const Vector& pos, const Vector& delta, FungeRu
 	addRunner(runner);
 }
 
-void FungeUniverse::transferRunner(FungeRunner* runner){
-	if(&runner->getUniverse() != this){
-		std::lock_guard<std::mutex> guard(mutex);
+bool FungeUniverse::transferRunner(FungeRunner* runner){
+	std::lock_guard<std::mutex> guard(mutex);
+	if(running){
 		runner->setUniverse(*this);
-		runner->setMode(config.mode);
-		runners.push_back(runner);
-		semaphore.release();
 	}
+	return running;
+}
+
+void FungeUniverse::handOver(FungeRunner* runner){
+	FungeUniverse& other = runner->getUniverse();
+	std::scoped_lock guard(mutex, other.mutex);
+	runners.remove(runner);
+	debug.endThread(*runner);
+	other.insertRunner(runner);
+	cv.notify_all();
 }
 
 void FungeUniverse::addRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
+	insertRunner(runner);
+}
+
+void FungeUniverse::insertRunner(FungeRunner* runner){
 	if(!running){
 		delete runner;
 		return;
 	}
+	++arrivals;
 	runner->setMode(config.mode);
 	if(config.threads == THREAD_NATIVE){
 		std::thread* thread = new std::thread(std::ref(*runner));
@@ -127,18 +141,19 @@ void FungeUniverse::operator()(){
 				if(thread->isRunning()){
 					thread->tick();
 				}
+				if(&thread->getUniverse() != this){
+					handOver(thread);
+					mutex.lock();
+					continue;
+				}
 				mutex.lock();
 
 				runners.pop_front();
-				if(&thread->getUniverse() == this){
-					if(thread->isRunning()){
-						runners.push_back(thread);
-					}else{
-						debug.endThread(*thread);
-						delete thread;
-						cv.notify_all();
-					}
+				if(thread->isRunning()){
+					runners.push_back(thread);
 				}else{
+					debug.endThread(*thread);
+					delete thread;
 					cv.notify_all();
 				}
 			}
diff --git a/src/fingerprint/FingerprintMVRS.cpp b/src/fingerprint/FingerprintMVRS.cpp
index 4b44a70..573bba8 100644
--- a/src/fingerprint/FingerprintMVRS.cpp
+++ b/src/fingerprint/FingerprintMVRS.cpp
@@ -82,7 +82,10 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 				ret = ERROR_UNSPEC;
 				break;
 			}
-			other->transferRunner(&runner);
+			if(!other->transferRunner(&runner)){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			ip.setPos(pos);
 			ip.setDelta(delta);
 		}break;
@@ -93,7 +96,9 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 				ret = ERROR_UNSPEC;
 				break;
 			}
-			other->transferRunner(&runner);
+			if(!other->transferRunner(&runner)){
+				ret = ERROR_UNSPEC;
+			}
 		}break;
 		case 'N':{
 			pushString(stack.top(), universe.getName());
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 2ef035f..4227dba 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -11,6 +11,7 @@
 #include "FungeRunner.h"
 #include "FungeDebugger.h"
 #include "FungeSem.h"
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <iostream>
@@ -89,10 +90,23 @@ class FungeUniverse {
 		void createRunner(const Vector& pos, const Vector& delta, FungeRunner& r);
 
 		/**
-		 * Transfer a runner from another universe
+		 * Transfer a runner from another universe.
+		 * The universe the runner is in has to hand it over after the current tick.
 		 * @param runner Runner to transfer.
+		 * @return false if this universe was killed.
 		 */
-		void transferRunner(FungeRunner* runner);
+		bool transferRunner(FungeRunner* runner);
+
+		/**
+		 * Hand over a transferred runner to its new universe.
+		 * @param runner Runner that was transferred.
+		 */
+		void handOver(FungeRunner* runner);
+
+		/**
+		 * Number of times a runner was added to any universe.
+		 */
+		static std::atomic<size_t> arrivals;
 
 		/**
 		 * Determine how the universe was created.
@@ -139,6 +153,7 @@ class FungeUniverse {
 		
 		explicit FungeUniverse(const FungeConfig& cfg);
 		void addRunner(FungeRunner* runner);
+		void insertRunner(FungeRunner* runner);
 		bool hasRunners() const;
 		void updateMode();
 
-- 
2.43.0


From 1190175df3d2280c66886d520db8f2d61566942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 09/44] fix: treat a failing read as an error instead of
 reading for ever

Loading or including a directory, or a file with a read error, looped without
end because only the end of the file was looked for.
---
 src/Field.cpp              | 2 +-
 src/Funge.cpp              | 4 ++++
 src/Unefunge98Strategy.cpp | 8 ++++++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 4bfc108..575e0e2 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -55,7 +55,7 @@ Vector Field::parse(const Vector& start, std::istream& file, bool binary){
 	Vector v(start);
 	Vector max(start);
 	int last = 0;
-	for(int i = file.get(); !file.eof(); i = file.get()) {
+	for(int i = file.get(); file.good(); i = file.get()) {
 		size_t dims = dimensions;
 		if((i == '\n' || i == '\r') && !binary){
 			if(i == '\r'){
diff --git a/src/Funge.cpp b/src/Funge.cpp
index b290d81..8053811 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -96,6 +96,10 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 	}
 
 	FungeUniverse* universe = FungeMultiverse::getInstance().create(stream, fmt, config);
+	if(stream.bad()){
+		std::cerr << "Failed to read " << filepath << std::endl;
+		return EIO;
+	}
 	universe->createRunner(Vector{0}, Vector{1});
 
 	return 0;
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 7eb6fae..a918992 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -247,8 +247,12 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		std::ifstream file(filepath);
 		if(!file.fail()){
 			Vector vb = runner.getField().parse(va, file, !!(flags & FILE_IN_BINARY));
-			pushVector(runner, vb);
-			pushVector(runner, va);
+			if(!file.bad()){
+				pushVector(runner, vb);
+				pushVector(runner, va);
+			}else{
+				ret = ERROR_UNSPEC;
+			}
 		}else{
 			ret = ERROR_UNSPEC;
 		}
-- 
2.43.0


From ef1779581878fe33313eb24ca35571e80821fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 10/44] fix: read multiverse files with blank lines, without
 directory or arguments

A blank line (also the one after the last line feed) was taken as the
directory itself, blanks at the end of a line gave an empty argument, and
programs of a multiverse file in the working directory were looked for in /.
---
 src/Funge.cpp           | 14 +++++++++-----
 src/FungeMultiverse.cpp |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index 8053811..59af210 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -33,16 +33,16 @@ int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 		auto iss = std::istringstream(line);
 
 		std::string filename;
-		iss >> filename;
+		if(!(iss >> filename)){
+			continue;
+		}
 		std::filesystem::path path(filename);
-		if(path.is_relative()){
+		if(path.is_relative() && !dir.empty()){
 			path.assign(dir + path.preferred_separator + filename);
 		}
 		// Get arguments for this universe
 		FungeConfig cfg(config);
-		while(iss.good()){
-			std::string arg;
-			iss >> arg;
+		for(std::string arg; iss >> arg; ){
 			cfg.args.push_back(arg);
 		}
 
@@ -52,6 +52,10 @@ int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 		}
 	}
 
+	if(stream.bad()){
+		std::cerr << "Failed to read " << filepath << std::endl;
+		return EIO;
+	}
 	return 0;
 }
 
diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index a3b63a5..4d5245f 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -70,7 +70,7 @@ int FungeMultiverse::waitAll(){
 		// Keep looping until all universes are dead
 	}while(arrivals != FungeUniverse::arrivals);
 
-	return prime->get();
+	return (prime != nullptr) ? prime->get() : 0;
 }
 
 void FungeMultiverse::killAll(int ret){
-- 
2.43.0


From 8776b352a3a19198d0557a7aabf39ded176576df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 11/44] fix: start the programs of a multiverse file when all
 are loaded

If a later file could not be loaded, the programs already started ran on
while the process was exiting, and used what exit had destroyed.
---
 src/Funge.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index 59af210..3685f70 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -17,9 +17,11 @@
 
 namespace Funge{
 
-int createUniverse(const std::filesystem::path& filepath, FungeConfig& config);
+typedef std::vector<FungeUniverse*> UniverseList;
 
-int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
+int createUniverse(const std::filesystem::path& filepath, FungeConfig& config, UniverseList& created);
+
+int parseFMV(const std::filesystem::path& filepath, FungeConfig& config, UniverseList& created){
 	std::string dir = filepath.parent_path();
 	std::ifstream stream(filepath);
 	if(stream.fail()){
@@ -46,7 +48,7 @@ int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 			cfg.args.push_back(arg);
 		}
 
-		int uni = createUniverse(path, cfg);
+		int uni = createUniverse(path, cfg, created);
 		if(uni != 0){
 			return uni;
 		}
@@ -59,7 +61,7 @@ int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 	return 0;
 }
 
-int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
+int createUniverse(const std::filesystem::path& filepath, FungeConfig& config, UniverseList& created){
 	Field::FileFormat fmt = Field::FORMAT_BF;
 
 	std::string ext = filepath.extension();
@@ -69,7 +71,7 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 	}else if(ext == ".fl"){
 		fmt = Field::FORMAT_FL;
 	}else if(ext == ".fmv"){
-		return parseFMV(filepath, config);
+		return parseFMV(filepath, config, created);
 	}
 	config.name = filepath;
 
@@ -104,7 +106,7 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 		std::cerr << "Failed to read " << filepath << std::endl;
 		return EIO;
 	}
-	universe->createRunner(Vector{0}, Vector{1});
+	created.push_back(universe);
 
 	return 0;
 }
@@ -242,10 +244,15 @@ int fungemain(int argc, char **argv, char **envp){
 		funge_config.env.push_back(std::string(*env));
 	}
 
-	int uni = createUniverse(filepath, funge_config);
+	UniverseList created;
+	int uni = createUniverse(filepath, funge_config, created);
 	if(uni != 0){
 		return uni;
 	}
+	// Start only when everything could be loaded
+	for(auto universe : created){
+		universe->createRunner(Vector{0}, Vector{1});
+	}
 
 	return FungeMultiverse::getInstance().waitAll();
 }
-- 
2.43.0


From 9bebc1f21597c862bece1e05ce9d5e4ef3cd4f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 12/44] fix: reflect when writing a file fails

o only noticed that a file could not be opened, and reported success when the
disk was full or a write or the close failed.
---
 src/Unefunge98Strategy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index a918992..f7e208b 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -275,6 +275,10 @@ FungeError Unefunge98Strategy::instructionFileOut(){
 		std::ofstream file(filepath);
 		if(!file.fail()){
 			runner.getField().dump(va, vb, file, !(flags & FILE_OUT_TEXT));
+			file.close();
+			if(file.fail()){
+				ret = ERROR_UNSPEC;
+			}
 		}else{
 			ret = ERROR_UNSPEC;
 		}
-- 
2.43.0


From 40a9af582d71335509af0cbe0f3d2fc4b913f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 13/44] fix: reflect when a directory operation fails

Any error other than a missing directory was thrown as an exception, which
nobody catches, and ended the interpreter.
---
 src/fingerprint/FingerprintDIRF.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fingerprint/FingerprintDIRF.cpp b/src/fingerprint/FingerprintDIRF.cpp
index 85c99dd..99d9182 100644
--- a/src/fingerprint/FingerprintDIRF.cpp
+++ b/src/fingerprint/FingerprintDIRF.cpp
@@ -16,23 +16,24 @@ FingerprintDIRF::FingerprintDIRF(FungeRunner& r) :
 
 FungeError FingerprintDIRF::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
+	std::error_code err;
 	switch(cmd){
 		case 'C':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::current_path(dir);
+			if(std::filesystem::is_directory(dir, err)){
+				std::filesystem::current_path(dir, err);
 			}else{
 				ret = ERROR_UNSPEC;
 			}
 		} break;
 		case 'M':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			std::filesystem::create_directory(dir);
+			std::filesystem::create_directory(dir, err);
 		} break;
 		case 'R':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::remove(dir);
+			if(std::filesystem::is_directory(dir, err)){
+				std::filesystem::remove(dir, err);
 			}else{
 				ret = ERROR_UNSPEC;
 			}
@@ -40,6 +41,9 @@ FungeError FingerprintDIRF::execute(inst_t cmd){
 		default:
 			ret = ERROR_UNIMP;
 	}
+	if(err){
+		ret = ERROR_UNSPEC;
+	}
 	return ret;
 }
 
-- 
2.43.0


From dcc0b6174bd4d6036d7b907f099265d4557d5ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 14/44] fix: keep disabled features disabled everywhere

Universes made by MVRS B and for library fingerprints allowed everything
whatever the command line said, and DIRF ignored -fno-filesystem.
---
 src/fingerprint/FingerprintDIRF.cpp     | 6 ++++++
 src/fingerprint/FingerprintFungeLib.cpp | 3 +++
 src/fingerprint/FingerprintMVRS.cpp     | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/src/fingerprint/FingerprintDIRF.cpp b/src/fingerprint/FingerprintDIRF.cpp
index 99d9182..bc65f1d 100644
--- a/src/fingerprint/FingerprintDIRF.cpp
+++ b/src/fingerprint/FingerprintDIRF.cpp
@@ -6,6 +6,8 @@
 
 #include "FingerprintDIRF.h"
 #include "FungeUtilities.h"
+#include "FungeUniverse.h"
+#include <iostream>
 #include<filesystem>
 
 namespace Funge {
@@ -17,6 +19,10 @@ FingerprintDIRF::FingerprintDIRF(FungeRunner& r) :
 FungeError FingerprintDIRF::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
 	std::error_code err;
+	if(!runner.getUniverse().allowFilesystem()){
+		std::cerr << "Run with -ffilesystem to enable execution." << std::endl;
+		return ERROR_NOTAVAIL;
+	}
 	switch(cmd){
 		case 'C':{
 			std::filesystem::path dir = popString(runner.getStack().top());
diff --git a/src/fingerprint/FingerprintFungeLib.cpp b/src/fingerprint/FingerprintFungeLib.cpp
index 4e6384f..fae1070 100644
--- a/src/fingerprint/FingerprintFungeLib.cpp
+++ b/src/fingerprint/FingerprintFungeLib.cpp
@@ -39,6 +39,9 @@ FingerprintFungeLib* FingerprintFungeLib::factory(FungeRunner& r, const std::str
 		FungeConfig config;
 		config.name = std::filesystem::canonical(fl);
 		config.standard = FUNGE_98;
+		config.concurrent = r.getUniverse().allowConcurrent();
+		config.execute = r.getUniverse().allowExecute();
+		config.filesystem = r.getUniverse().allowFilesystem();
 		if(r.isMode(FUNGE_MODE_DEBUG)){
 			config.mode |= FUNGE_MODE_DEBUG;
 		}
diff --git a/src/fingerprint/FingerprintMVRS.cpp b/src/fingerprint/FingerprintMVRS.cpp
index 573bba8..70681ae 100644
--- a/src/fingerprint/FingerprintMVRS.cpp
+++ b/src/fingerprint/FingerprintMVRS.cpp
@@ -55,6 +55,9 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 				config.dimensions = dim;
 				config.standard = stand;
 				config.mode = flgs;
+				config.concurrent = universe.allowConcurrent();
+				config.execute = universe.allowExecute();
+				config.filesystem = universe.allowFilesystem();
 				multi.create(config);
 			}
 		} break;
-- 
2.43.0


From 6429382c1c98a3930f2c1791f3d31d7691869983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 15/44] fix: do not lose a number that the input ends with

& reflected when the input ended right after the last digit.
---
 src/Unefunge93Strategy.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 304845f..69127fe 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -208,9 +208,6 @@ FungeError Unefunge93Strategy::instructionNumIn(){
 	while(c >= '0' && c <= '9'){
 		num = (num*10) + (c-'0');
 		c = getchar();
-		if(c == EOF){
-			return ERROR_UNSPEC;
-		}
 	}
 	ungetc(c, stdin);
 	stack.top().push(num);
-- 
2.43.0


From 97103946ccbe77f43d725140ec475337df3fe757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 16/44] fix: let one input instruction at a time use the
 terminal

Two IPs reading at the same time shared out the digits of a number, and the
second one saved and restored the settings of the first, which left the
terminal in non-canonical mode.
---
 src/util/ScopedTermios.cpp       | 20 ++++++++++++++------
 src/util/include/ScopedTermios.h |  5 +++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/util/ScopedTermios.cpp b/src/util/ScopedTermios.cpp
index 1b9079a..0cfd8c8 100644
--- a/src/util/ScopedTermios.cpp
+++ b/src/util/ScopedTermios.cpp
@@ -7,13 +7,21 @@
 #include "ScopedTermios.h"
 #include <unistd.h>
 
-ScopedTermios::ScopedTermios(tcflag_t cflag){
-	tcgetattr(STDIN_FILENO, &oldt);
-	termios newt = oldt;
-	newt.c_lflag &= cflag;
-	tcsetattr(STDIN_FILENO, TCSANOW, &newt);
+std::mutex ScopedTermios::mutex;
+
+ScopedTermios::ScopedTermios(tcflag_t cflag) :
+	guard(mutex),
+	valid(tcgetattr(STDIN_FILENO, &oldt) == 0)
+{
+	if(valid){
+		termios newt = oldt;
+		newt.c_lflag &= cflag;
+		tcsetattr(STDIN_FILENO, TCSANOW, &newt);
+	}
 }
 
 ScopedTermios::~ScopedTermios(){
-	tcsetattr(STDIN_FILENO, TCSANOW, &oldt);
+	if(valid){
+		tcsetattr(STDIN_FILENO, TCSANOW, &oldt);
+	}
 }
diff --git a/src/util/include/ScopedTermios.h b/src/util/include/ScopedTermios.h
index a6a018d..42aaeb3 100644
--- a/src/util/include/ScopedTermios.h
+++ b/src/util/include/ScopedTermios.h
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <mutex>
 #include <termios.h>
 
 class ScopedTermios {
@@ -14,5 +15,9 @@ class ScopedTermios {
 		~ScopedTermios();
 	
 	private:
+		static std::mutex mutex;
+
+		std::lock_guard<std::mutex> guard;
 		termios oldt;
+		bool valid;
 };
-- 
2.43.0


From 5fd6076f415565627a3135bd698969b75d0c4d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 17/44] fix: do not share the broken-down time between
 universes

localtime returns a static object, which another thread can overwrite.
---
 src/StarfishStrategy.cpp   | 9 ++++++---
 src/Unefunge98Strategy.cpp | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index 66b544a..e4fa141 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -130,7 +130,8 @@ FungeError StarfishStrategy::instructionSleep(){
 
 FungeError StarfishStrategy::instructionHour(){
 	std::time_t now = std::time(nullptr);
-	std::tm* dt = std::localtime(&now);
+	std::tm local;
+	std::tm* dt = localtime_r(&now, &local);
 
 	check_selected(selected);
 	push(TOP, dt->tm_hour);
@@ -139,7 +140,8 @@ FungeError StarfishStrategy::instructionHour(){
 
 FungeError StarfishStrategy::instructionMinute(){
 	std::time_t now = std::time(nullptr);
-	std::tm* dt = std::localtime(&now);
+	std::tm local;
+	std::tm* dt = localtime_r(&now, &local);
 
 	check_selected(selected);
 	push(TOP, dt->tm_min);
@@ -148,7 +150,8 @@ FungeError StarfishStrategy::instructionMinute(){
 
 FungeError StarfishStrategy::instructionSecond(){
 	std::time_t now = std::time(nullptr);
-	std::tm* dt = std::localtime(&now);
+	std::tm local;
+	std::tm* dt = localtime_r(&now, &local);
 
 	check_selected(selected);
 	push(TOP, dt->tm_sec);
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index f7e208b..9e62262 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -392,7 +392,8 @@ void Unefunge98Strategy::pushSysInfo(int num){
 	pushes += stack.top().push(stack.size());
 	// Time
 	std::time_t now = std::time(nullptr);
-	std::tm* dt = std::localtime(&now);
+	std::tm local;
+	std::tm* dt = localtime_r(&now, &local);
 	pushes += stack.top().push((dt->tm_hour << 16) + (dt->tm_min << 8) + dt->tm_sec);
 	// Date
 	pushes += stack.top().push((dt->tm_year << 16) + ((dt->tm_mon+1) << 8) + dt->tm_mday);
-- 
2.43.0


From 024e8aa535d7bc560a3de40fb7474f81e1b1509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 18/44] fix: lock the table of cell references

All IPs of all universes share it.
---
 src/fingerprint/FingerprintREFC.cpp       | 3 +++
 src/fingerprint/include/FingerprintREFC.h | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/fingerprint/FingerprintREFC.cpp b/src/fingerprint/FingerprintREFC.cpp
index 0b2567f..8c6c2ea 100644
--- a/src/fingerprint/FingerprintREFC.cpp
+++ b/src/fingerprint/FingerprintREFC.cpp
@@ -10,6 +10,7 @@
 namespace Funge {
 
 std::map<stack_t, Vector> FingerprintREFC::refc_map;
+std::mutex FingerprintREFC::refc_mutex;
 
 FingerprintREFC::FingerprintREFC(FungeRunner& r) :
 	Fingerprint(r, {'R', 'D'})
@@ -19,6 +20,7 @@ FungeError FingerprintREFC::execute(inst_t cmd){
 	switch(cmd){
 		case 'R':{
 			Vector v = popVector(runner);
+			std::lock_guard<std::mutex> lock(refc_mutex);
 			stack_t r = random();
 			auto find = refc_map.find(r);
 			while(find != refc_map.end()){
@@ -30,6 +32,7 @@ FungeError FingerprintREFC::execute(inst_t cmd){
 		} break;
 		case 'D':{
 			stack_t r = stack.top().pop();
+			std::lock_guard<std::mutex> lock(refc_mutex);
 			auto find = refc_map.find(r);
 			if(find != refc_map.end()){
 				Vector v = refc_map[r];
diff --git a/src/fingerprint/include/FingerprintREFC.h b/src/fingerprint/include/FingerprintREFC.h
index 32929fc..19fc3cd 100644
--- a/src/fingerprint/include/FingerprintREFC.h
+++ b/src/fingerprint/include/FingerprintREFC.h
@@ -9,6 +9,7 @@
 #include "Fingerprint.h"
 #include "Vector.h"
 #include <map>
+#include <mutex>
 
 namespace Funge {
 
@@ -21,6 +22,7 @@ class FingerprintREFC : public Fingerprint {
 	
 	protected:
 		static std::map<stack_t, Vector> refc_map;
+		static std::mutex refc_mutex;
 };
 
 }
-- 
2.43.0


From 80207b01cc7dce6fd4d516f9336fd794ca68f8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 19/44] fix: remember the id of the parent IP, not the parent

IIPC A crashed in an IP without a parent, and used the released parent when
that had already ended.
---
 src/FungeRunner.cpp                 | 8 ++++----
 src/fingerprint/FingerprintIIPC.cpp | 6 +++++-
 src/include/FungeRunner.h           | 5 +++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index c3abe38..04b6c89 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -24,7 +24,7 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(new StackStack()),
 	ip(*this),
-	parent(nullptr),
+	parent(),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -42,7 +42,7 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(r.stack),
 	ip(*this),
-	parent(&r),
+	parent(r.getID()),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -60,7 +60,7 @@ FungeRunner::FungeRunner(const FungeRunner& runner) :
 	universe(runner.universe),
 	stack(new StackStack(*runner.stack)),
 	ip(runner.ip, *this),
-	parent(&runner),
+	parent(runner.getID()),
 	errorHandler(nullptr),
 	normalState(*this),
 	stringState(*this),
@@ -248,7 +248,7 @@ void FungeRunner::setUniverse(FungeUniverse& other){
 	universe = &other;
 }
 
-const FungeRunner* FungeRunner::getParent(){
+const std::optional<size_t>& FungeRunner::getParent() const{
 	return parent;
 }
 
diff --git a/src/fingerprint/FingerprintIIPC.cpp b/src/fingerprint/FingerprintIIPC.cpp
index b03310e..5d70716 100644
--- a/src/fingerprint/FingerprintIIPC.cpp
+++ b/src/fingerprint/FingerprintIIPC.cpp
@@ -19,7 +19,11 @@ FungeError FingerprintIIPC::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
 	switch(cmd){
 		case 'A':
-			stack.top().push(runner.getParent()->getID());
+			if(runner.getParent()){
+				stack.top().push(*runner.getParent());
+			}else{
+				ret = ERROR_UNSPEC;
+			}
 			break;
 		case 'D':{
 			size_t age = stack.top().age();
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index 6141f55..ac22b4d 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -14,6 +14,7 @@
 #include "FungeConfig.h"
 #include <atomic>
 #include <memory>
+#include <optional>
 
 namespace Funge {
 class FungeUniverse;
@@ -55,7 +56,7 @@ class FungeRunner {
 		void setErrorHandler(std::function<FungeError(FungeError)> func);
 
 		void shareStack(FungeRunner& other);
-		const FungeRunner* getParent();
+		const std::optional<size_t>& getParent() const;
 	
 	private:
 		static std::atomic<size_t> count;
@@ -64,7 +65,7 @@ class FungeRunner {
 		FungeUniverse* universe;
 		std::shared_ptr<StackStack> stack;
 		InstructionPointer ip;
-		const FungeRunner* parent;
+		std::optional<size_t> parent;
 		std::function<FungeError(FungeError)> errorHandler;
 		std::vector<FungeStrategy*> strategies;
 		
-- 
2.43.0


From 19071ecb81cae9a9db23afce0ac7f90c79f788ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 20/44] fix: pass perl code on as it is, and report its failure

The shell expanded variables and commands in the code, and a perl that was
killed gave the result 0.
---
 src/fingerprint/FingerprintPERL.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fingerprint/FingerprintPERL.cpp b/src/fingerprint/FingerprintPERL.cpp
index 77eda37..40547ee 100644
--- a/src/fingerprint/FingerprintPERL.cpp
+++ b/src/fingerprint/FingerprintPERL.cpp
@@ -7,7 +7,8 @@
 #include "FingerprintPERL.h"
 #include "FungeUtilities.h"
 #include "FungeUniverse.h"
-#include <iomanip>
+#include <cstdlib>
+#include <sys/wait.h>
 
 namespace Funge {
 
@@ -45,10 +46,13 @@ FungeError FingerprintPERL::execute(inst_t cmd){
 
 int FingerprintPERL::perl(const std::string& code){
 	std::string cmd = std::string("exit(eval{") + code + std::string("})");
-	std::stringstream sq;
-	sq << std::quoted(cmd);
-	cmd = std::string("perl -e ") + sq.str();
-	return system(cmd.c_str()) >> 8;
+	std::string sq;
+	for(char c : cmd){
+		sq += (c == '\'') ? std::string("'\\''") : std::string(1, c);
+	}
+	cmd = std::string("perl -e '") + sq + "'";
+	int status = system(cmd.c_str());
+	return WIFEXITED(status) ? WEXITSTATUS(status) : status;
 }
 
 }
-- 
2.43.0


From e6b5bb1a87ab680d2807e7f7bdc639e918b9ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 21/44] fix: seed the random number generators with random
 numbers

The seed was always the same, so that all IPs drew the same numbers and every
run repeated them.
---
 src/include/FungeStrategy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/FungeStrategy.h b/src/include/FungeStrategy.h
index dda894c..985dd81 100644
--- a/src/include/FungeStrategy.h
+++ b/src/include/FungeStrategy.h
@@ -33,7 +33,7 @@ class FungeStrategy {
 		stack_t random(stack_t min, stack_t max);
 	
 	private:
-		std::default_random_engine rd;
+		std::random_device rd;
 		std::mt19937 gen;
 };
 
-- 
2.43.0


From 6bf1813a7183b3fda4efbf576a15059718342c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 22/44] fix: let quit and the end of input end a debugger
 session

---
 src/Defunge.cpp     | 8 +++++++-
 src/FungeRunner.cpp | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 4959bce..05d8d51 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -78,6 +78,9 @@ Defunge::Defunge():
 
 void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 	std::lock_guard<std::recursive_mutex> guard(mutex);
+	if(!run->isRunning()){
+		return;
+	}
 	debugger = dbg;
 	runner = run;
 	
@@ -97,7 +100,10 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 		std::cout << "\e[33m(defunge)\e[0m " << std::flush;
 		
 		std::string line;
-		std::getline(std::cin, line);
+		if(!std::getline(std::cin, line)){
+			std::cout << std::endl;
+			line = "quit";
+		}
 		auto iss = std::istringstream(line);
 		
 		std::string cmd;
diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 04b6c89..7893e99 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -137,6 +137,9 @@ void FungeRunner::tick(){
 	FungeError err = ERROR_UNSPEC;
 	do {
 		getUniverse().getDebugger().tick(*this);
+		if(ip.isStopped()){
+			break;
+		}
 		inst_t i = ip.get();
 		err = execute(i);
 		switch(err){
-- 
2.43.0


From 8cefd1208b99856e9c2118a40a5de5b94b325ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 23/44] fix: do not use ended or unknown IPs in the debugger

---
 src/Defunge.cpp             | 37 +++++++++++++++++-----------------
 src/FungeDebugger.cpp       | 40 +++++++++++++++++++++++++++++--------
 src/include/FungeDebugger.h |  2 ++
 3 files changed, 53 insertions(+), 26 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 05d8d51..240bbdf 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -84,7 +84,7 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 	debugger = dbg;
 	runner = run;
 	
-	switch(dbg->threads[dbg->lastThread].state){
+	switch(dbg->getState(*run)){
 		case FungeDebugger::STATE_RUN:
 			return;
 		case FungeDebugger::STATE_START:
@@ -130,7 +130,7 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 }
 
 void Defunge::printIP(const FungeRunner& r){
-	const InstructionPointer& ip = runner->getIP();
+	const InstructionPointer& ip = r.getIP();
 	std::cout << r.getID() << ": " << ip.getPos() << " \"" << static_cast<char>(ip.get()) << "\"" << std::endl;
 }
 
@@ -138,11 +138,12 @@ void Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& c
 	const Vector start = center-size;
 	const Vector end = center+size;
 	Vector pos = start;
+	std::lock_guard<std::recursive_mutex> guard(dbg->mutex);
 	while(pos <= end){
 		inst_t i = field.get(pos);
 		bool color = false;
-		for(auto t : dbg->threads){
-			if(t.second.runner->getIP().getPos() == pos){
+		for(auto& t : dbg->threads){
+			if(t.second.runner != nullptr && t.second.runner->getIP().getPos() == pos){
 				std::cout << "\e[43;1m"; // Yellow background
 				color = true;
 				break;
@@ -183,8 +184,7 @@ Defunge::Error Defunge::runCommand(std::istringstream& iss){
 		return DEFUNGE_NO_THREAD;
 	}
 
-	size_t tid = runner->getID();
-	debugger->threads[tid].state = FungeDebugger::STATE_RUN;
+	debugger->setState(*runner, FungeDebugger::STATE_RUN);
 	return DEFUNGE_BREAK;
 }
 
@@ -201,8 +201,7 @@ Defunge::Error Defunge::stepCommand(std::istringstream& iss){
 		return DEFUNGE_NO_THREAD;
 	}
 
-	size_t tid = runner->getID();
-	debugger->threads[tid].state = FungeDebugger::STATE_STEP;
+	debugger->setState(*runner, FungeDebugger::STATE_STEP);
 	return DEFUNGE_BREAK;
 }
 
@@ -272,12 +271,14 @@ Defunge::Error Defunge::threadCommand(std::istringstream& iss){
 	}
 	size_t thread = tid;
 	iss >> thread;
-	if(debugger->threads.contains(thread)){
+	std::lock_guard<std::recursive_mutex> guard(debugger->mutex);
+	auto found = debugger->threads.find(thread);
+	if(found != debugger->threads.end() && found->second.runner != nullptr){
 		tid = thread;
-		runner = debugger->threads[tid].runner;
+		runner = found->second.runner;
 	}
-	for(auto t : debugger->threads){
-		if(t.second.state != FungeDebugger::STATE_END){
+	for(auto& t : debugger->threads){
+		if(t.second.runner != nullptr){
 			if(runner != nullptr && t.second.runner->getID() == tid){
 				std::cout << "* ";
 			}else{
@@ -301,6 +302,7 @@ Defunge::Error Defunge::backtraceCommand(std::istringstream& iss){
 	size_t i = 0;
 	size_t tid = runner->getID();
 	const Field& field = runner->getUniverse().getField();
+	std::lock_guard<std::recursive_mutex> guard(debugger->mutex);
 	for(auto b : debugger->threads[tid].backtrace){
 		std::cout << "#" << i++ << "  " << b << " \"" << static_cast<char>(field.get(b)) << "\"" << std::endl;
 	}
@@ -393,6 +395,7 @@ Defunge::Error Defunge::breakCommand(std::istringstream& iss){
 	Vector v;
 	iss >> v;
 	debugger->addBreakpoint(v);
+	std::lock_guard<std::recursive_mutex> guard(debugger->mutex);
 	for(auto b : debugger->breakpoints){
 		std::cout << "Breakpoint " << b << std::endl;
 	}
@@ -407,6 +410,7 @@ Defunge::Error Defunge::watchCommand(std::istringstream& iss){
 	Vector v;
 	iss >> v;
 	debugger->addWatchpoint(v);
+	std::lock_guard<std::recursive_mutex> guard(debugger->mutex);
 	for(auto w : debugger->watchpoints){
 		std::cout << "Watchpoint " << w << std::endl;
 	}
@@ -439,12 +443,9 @@ Defunge::Error Defunge::universeCommand(std::istringstream& iss){
 		FungeUniverse* uni = multi[name];
 		if(uni != nullptr){
 			debugger = &uni->getDebugger();
-			if(debugger->threads.empty()){
-				runner = nullptr;
-			}else{
-				size_t id = debugger->lastThread;
-				runner = debugger->threads[id].runner;
-			}
+			std::lock_guard<std::recursive_mutex> guard(debugger->mutex);
+			auto last = debugger->threads.find(debugger->lastThread);
+			runner = (last != debugger->threads.end()) ? last->second.runner : nullptr;
 		}
 	}
 
diff --git a/src/FungeDebugger.cpp b/src/FungeDebugger.cpp
index a68401b..73818aa 100644
--- a/src/FungeDebugger.cpp
+++ b/src/FungeDebugger.cpp
@@ -28,6 +28,7 @@ void FungeDebugger::tick(FungeRunner& runner){
 	if(runner.isMode(FUNGE_MODE_DEBUG)){
 		intro(runner);
 		size_t id = runner.getID();
+		std::unique_lock<std::recursive_mutex> guard(mutex);
 		auto found = threads.find(id);
 		if(found == threads.end()){
 			threads.insert({id, Thread{
@@ -49,6 +50,7 @@ void FungeDebugger::tick(FungeRunner& runner){
 			threads[id].backtrace.pop_back();
 		}
 		threads[id].backtrace.push_front(ip.getPos());
+		guard.unlock();
 		Defunge::getInstance().debug(this, &runner);
 	}
 }
@@ -56,7 +58,7 @@ void FungeDebugger::swbreak(FungeRunner& runner){
 	if(runner.isMode(FUNGE_MODE_DEBUG)){
 		intro(runner);
 		std::cout << "Software Breakpoint " << runner.getIP().getPos() << std::endl;
-		threads[lastThread].state = STATE_BREAK;
+		setState(runner, STATE_BREAK);
 		Defunge::getInstance().debug(this, &runner);
 	}
 }
@@ -65,21 +67,25 @@ void FungeDebugger::trap(FungeRunner& runner){
 	if(runner.isMode(FUNGE_MODE_DEBUG)){
 		intro(runner);
 		std::cout << "Exception Trapped " << runner.getIP().getPos() << std::endl;
-		threads[lastThread].state = STATE_BREAK;
+		setState(runner, STATE_BREAK);
 		Defunge::getInstance().debug(this, &runner);
 	}
 }
 
 void FungeDebugger::debugWrite(const Vector& pos, inst_t inst){
 	if(universe.isMode(FUNGE_MODE_DEBUG)){
-		if(watchpoints.contains(pos)){
-			threads[lastThread].state = STATE_BREAK;
-			intro(*threads[lastThread].runner);
+		std::unique_lock<std::recursive_mutex> guard(mutex);
+		auto last = threads.find(lastThread);
+		if(watchpoints.contains(pos) && last != threads.end() && last->second.runner != nullptr){
+			FungeRunner* runner = last->second.runner;
+			last->second.state = STATE_BREAK;
+			intro(*runner);
 			std::cout << "Watchpoint " << pos << std::endl;
 			inst_t old = universe.getField().get(pos);
 			std::cout << "Old value = (" << old  << ") \"" << static_cast<char>(old) << "\"" << std::endl;
 			std::cout << "New value = (" << inst << ") \"" << static_cast<char>(inst) << "\"" << std::endl;
-			Defunge::getInstance().debug(this, threads[lastThread].runner);
+			guard.unlock();
+			Defunge::getInstance().debug(this, runner);
 		}
 	}
 }
@@ -93,16 +99,34 @@ void FungeDebugger::addBreakpoint(const Vector& vec){
 
 void FungeDebugger::addWatchpoint(const Vector& vec){
 	if(vec.size() > 0){
+		std::lock_guard<std::recursive_mutex> guard(mutex);
 		if(watchpoints.empty()){
 			universe.getField().addObserver(std::bind(&FungeDebugger::debugWrite, this, std::placeholders::_1, std::placeholders::_2));
 		}
-		std::lock_guard<std::recursive_mutex> guard(mutex);
 		watchpoints.insert(vec);
 	}
 }
 
 void FungeDebugger::endThread(const FungeRunner& runner){
-	threads[runner.getID()].state = STATE_END;
+	std::lock_guard<std::recursive_mutex> guard(mutex);
+	auto found = threads.find(runner.getID());
+	if(found != threads.end()){
+		found->second.state = STATE_END;
+		found->second.runner = nullptr;
+	}
+}
+
+FungeDebugger::State FungeDebugger::getState(const FungeRunner& runner){
+	std::lock_guard<std::recursive_mutex> guard(mutex);
+	auto found = threads.find(runner.getID());
+	return (found != threads.end()) ? found->second.state : STATE_START;
+}
+
+void FungeDebugger::setState(FungeRunner& runner, State state){
+	std::lock_guard<std::recursive_mutex> guard(mutex);
+	Thread& thread = threads[runner.getID()];
+	thread.runner = &runner;
+	thread.state = state;
 }
 
 void FungeDebugger::intro(FungeRunner& runner){
diff --git a/src/include/FungeDebugger.h b/src/include/FungeDebugger.h
index 44812df..d9dfc38 100644
--- a/src/include/FungeDebugger.h
+++ b/src/include/FungeDebugger.h
@@ -46,6 +46,8 @@ class FungeDebugger {
 			State state;
 		};
 		
+		State getState(const FungeRunner& runner);
+		void setState(FungeRunner& runner, State state);
 		void intro(FungeRunner& runner);
 		void debugWrite(const Vector& pos, inst_t inst);
 
-- 
2.43.0


From 0e37d05733252ead944d0a045a9d8d3beecd95d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 24/44] fix: ignore peeking at a stack that does not exist

---
 src/Defunge.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 240bbdf..2ecd5e7 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -225,7 +225,9 @@ Defunge::Error Defunge::peekCommand(std::istringstream& iss){
 	}else{
 		size_t s = 0;
 		iss >> s;
-		std::cout << stack->at(s).get(c) << std::endl;
+		if(s < stack->size()){
+			std::cout << stack->at(s).get(c) << std::endl;
+		}
 	}
 	return DEFUNGE_OK;
 }
-- 
2.43.0


From e1277535720de941749726a43c88f0ac1ad09868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 25/44] fix: let an IP come back to a debugged universe

---
 src/FungeDebugger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/FungeDebugger.cpp b/src/FungeDebugger.cpp
index 73818aa..803aded 100644
--- a/src/FungeDebugger.cpp
+++ b/src/FungeDebugger.cpp
@@ -30,12 +30,12 @@ void FungeDebugger::tick(FungeRunner& runner){
 		size_t id = runner.getID();
 		std::unique_lock<std::recursive_mutex> guard(mutex);
 		auto found = threads.find(id);
-		if(found == threads.end()){
-			threads.insert({id, Thread{
+		if(found == threads.end() || found->second.runner == nullptr){
+			threads[id] = Thread{
 				.runner = &runner,
 				.backtrace = {},
 				.state = FungeDebugger::STATE_START,
-			}});
+			};
 			std::cout << "New IP " << id << std::endl;
 		}
 		lastThread = id;
-- 
2.43.0


From a68fbe4286b612c4fb6c9635e3ac5b1a22981e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 26/44] fix: bind the instructions of DBUG

---
 src/fingerprint/FingerprintDBUG.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fingerprint/FingerprintDBUG.cpp b/src/fingerprint/FingerprintDBUG.cpp
index 5fb2421..843edd9 100644
--- a/src/fingerprint/FingerprintDBUG.cpp
+++ b/src/fingerprint/FingerprintDBUG.cpp
@@ -16,6 +16,7 @@ FingerprintDBUG::FingerprintDBUG(FungeRunner& r) :
 {}
 
 void FingerprintDBUG::activate(){
+	Fingerprint::activate();
 	dbg = &runner.getUniverse().getDebugger();
 }
 
-- 
2.43.0


From 15b80ab5118ee30a0e82e9eb3556a63b8e779275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 27/44] fix: reflect when a thread cannot be created

---
 src/Funge.cpp                       | 19 ++++++++++++-------
 src/FungeUniverse.cpp               | 11 ++++++++---
 src/Unefunge98Strategy.cpp          | 18 +++++++++++++-----
 src/fingerprint/FingerprintMVRS.cpp |  6 +++++-
 4 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index 3685f70..89f4e23 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -245,13 +245,18 @@ int fungemain(int argc, char **argv, char **envp){
 	}
 
 	UniverseList created;
-	int uni = createUniverse(filepath, funge_config, created);
-	if(uni != 0){
-		return uni;
-	}
-	// Start only when everything could be loaded
-	for(auto universe : created){
-		universe->createRunner(Vector{0}, Vector{1});
+	try {
+		int uni = createUniverse(filepath, funge_config, created);
+		if(uni != 0){
+			return uni;
+		}
+		// Start only when everything could be loaded
+		for(auto universe : created){
+			universe->createRunner(Vector{0}, Vector{1});
+		}
+	} catch(const std::system_error& err) {
+		std::cerr << "Failed to start " << filepath << ": " << err.what() << std::endl;
+		return err.code().value();
 	}
 
 	return FungeMultiverse::getInstance().waitAll();
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index fafbbaf..dfcc1fe 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -98,12 +98,17 @@ void FungeUniverse::insertRunner(FungeRunner* runner){
 		delete runner;
 		return;
 	}
-	++arrivals;
 	runner->setMode(config.mode);
 	if(config.threads == THREAD_NATIVE){
-		std::thread* thread = new std::thread(std::ref(*runner));
-		threads.push(thread);
+		try {
+			std::thread* thread = new std::thread(std::ref(*runner));
+			threads.push(thread);
+		} catch(const std::system_error&) {
+			delete runner;
+			throw;
+		}
 	}
+	++arrivals;
 	runners.push_back(runner);
 	semaphore.release();
 }
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 9e62262..c7b8eb3 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -147,7 +147,11 @@ FungeError Unefunge98Strategy::instructionQuit(){
 
 FungeError Unefunge98Strategy::instructionThread(){
 	if(runner.getUniverse().allowConcurrent()){
-		runner.getUniverse().cloneRunner(runner);
+		try {
+			runner.getUniverse().cloneRunner(runner);
+		} catch(const std::system_error&) {
+			return ERROR_UNSPEC;
+		}
 	}else{
 		std::cerr << "Run with -fconcurrent to enable concurrency." << std::endl;
 		return ERROR_NOTAVAIL;
@@ -322,10 +326,14 @@ FungeError Unefunge98Strategy::instructionLoad(){
 		for(stack_t i = 0; i < count; ++i){
 			fingerprint = (fingerprint << 8) + stack.top().pop();
 		}
-		if(finger.load(fingerprint)){
-			stack.top().push(fingerprint);
-			stack.top().push(1);
-		}else{
+		try {
+			if(finger.load(fingerprint)){
+				stack.top().push(fingerprint);
+				stack.top().push(1);
+			}else{
+				ret = ERROR_UNSPEC;
+			}
+		} catch(const std::system_error&) {
 			ret = ERROR_UNSPEC;
 		}
 	}else{
diff --git a/src/fingerprint/FingerprintMVRS.cpp b/src/fingerprint/FingerprintMVRS.cpp
index 70681ae..e3c5bc1 100644
--- a/src/fingerprint/FingerprintMVRS.cpp
+++ b/src/fingerprint/FingerprintMVRS.cpp
@@ -58,7 +58,11 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 				config.concurrent = universe.allowConcurrent();
 				config.execute = universe.allowExecute();
 				config.filesystem = universe.allowFilesystem();
-				multi.create(config);
+				try {
+					multi.create(config);
+				} catch(const std::system_error&) {
+					ret = ERROR_UNSPEC;
+				}
 			}
 		} break;
 		case 'C':{
-- 
2.43.0


From e5194f46335e1b7b6254eb04a7e8c5fae7abfc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 28/44] fix: put the value of the register back on the stack

---
 src/FishStrategy.cpp       | 1 +
 src/include/FishStrategy.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 9077472..cb09369 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -438,6 +438,7 @@ FungeError FishStrategy::instructionRegister(){
 
 	FungeError ret = ERROR_UNSPEC;
 	if(top.set){
+		push(TOP, top.value);
 		top.value = 0;
 		top.set = false;
 		ret = ERROR_NONE;
diff --git a/src/include/FishStrategy.h b/src/include/FishStrategy.h
index 7654048..3c84ec3 100644
--- a/src/include/FishStrategy.h
+++ b/src/include/FishStrategy.h
@@ -93,7 +93,7 @@ class FishStrategy : public FungeStrategy {
 
 		struct reg {
 			bool set;
-			stack_t value;
+			double value;
 		};
 
 		std::stack<reg> regs;
-- 
2.43.0


From 8ee36ac2eb0993c5c7af05fb88eb51e02bad5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 29/44] fix: shifting an empty stack is an error

---
 src/FishStrategy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index cb09369..192c4f9 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -313,6 +313,7 @@ FungeError FishStrategy::instructionLength(){
 
 FungeError FishStrategy::instructionShiftLeft(){
 	check_selected(selected);
+	check_stack(top, 1);
 	stack_t len = stack.top().size();
 	double temp[len];
 	for(stack_t i = 0; i < len; ++i){
@@ -327,6 +328,7 @@ FungeError FishStrategy::instructionShiftLeft(){
 
 FungeError FishStrategy::instructionShiftRight(){
 	check_selected(selected);
+	check_stack(top, 1);
 	stack_t len = stack.top().size();
 	double temp[len];
 	for(stack_t i = 0; i < len; ++i){
-- 
2.43.0


From 5214179e5e6bde20f97fe1c1f2e9a4bcac6c7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 30/44] fix: remove the right stack, and none that is not there

---
 src/FishStrategy.cpp       |  7 ++++---
 src/StackStack.cpp         |  7 ++++++-
 src/StarfishStrategy.cpp   |  7 +++++++
 src/include/FishStrategy.h | 13 ++++++-------
 src/include/StackStack.h   |  6 ++++++
 5 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 192c4f9..403f75a 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -368,12 +368,13 @@ FungeError FishStrategy::instructionCreateStack(){
 }
 
 FungeError FishStrategy::instructionRemoveStack(){
-	check_selected(selected);
-	check_selected(selected+1);
+	if(!stack.hasSecond()){
+		return ERROR_UNSPEC;
+	}
 	while(stack.top().size() > 0){
 		push(SECOND, pop(TOP));
 	}
-	stack.pop();
+	stack.remove(selected);
 	regs.pop();
 	return ERROR_NONE;
 }
diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index c0b3824..678f84d 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -73,10 +73,15 @@ void StackStack::insert(size_t pos){
 
 void StackStack::remove(size_t pos){
 	auto iter = stack.begin();
-	iter += stack.size()-pos-select;
+	iter += stack.size()-pos-select-1;
+	delete *iter;
 	stack.erase(iter);
 }
 
+bool StackStack::hasSecond() const{
+	return select+1 < stack.size();
+}
+
 size_t StackStack::size() const{
 	return stack.size();
 }
diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index e4fa141..dbe7012 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -55,6 +55,7 @@ FungeError StarfishStrategy::instructionFisherman(){
 
 FungeError StarfishStrategy::instructionCall(){
 	stack.insert(selected+1);
+	regs.push(regs.top());
 	pushVector(SECOND, ip.getPos());
 
 	check_stack(top, runner.getUniverse().dimensions());
@@ -64,10 +65,16 @@ FungeError StarfishStrategy::instructionCall(){
 }
 
 FungeError StarfishStrategy::instructionReturn(){
+	if(!stack.hasSecond()){
+		return ERROR_UNSPEC;
+	}
 	check_stack(second, runner.getUniverse().dimensions());
 	Vector v = popVector(SECOND);
 	ip.setPos(v);
 	stack.remove(selected+1);
+	reg top = regs.top();
+	regs.pop();
+	regs.top() = top;
 	return ERROR_NONE;
 }
 
diff --git a/src/include/FishStrategy.h b/src/include/FishStrategy.h
index 3c84ec3..d492d2b 100644
--- a/src/include/FishStrategy.h
+++ b/src/include/FishStrategy.h
@@ -24,9 +24,15 @@ class FishStrategy : public FungeStrategy {
 		virtual FungeError push(stack_t n) override;
 	
 	protected:
+		struct reg {
+			bool set;
+			double value;
+		};
+
 		size_t selected;
 		std::ifstream* file;
 		std::string filepath;
+		std::stack<reg> regs;
 
 		enum StackIndex {
 			TOP,
@@ -90,13 +96,6 @@ class FishStrategy : public FungeStrategy {
 		FungeError instructionEnd();
 
 		FungeError errorHandler(FungeError e);
-
-		struct reg {
-			bool set;
-			double value;
-		};
-
-		std::stack<reg> regs;
 };
 
 }
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 67f783f..2da1d6b 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -111,6 +111,12 @@ class StackStack {
 		 */
 		void remove(size_t pos);
 
+		/**
+		 * Check if there is a second Stack.
+		 * @return true if there is a Stack under the top Stack.
+		 */
+		bool hasSecond() const;
+
 		/**
 		 * Get the number of stacks.
 		 * @return Number of stacks.
-- 
2.43.0


From 41ffa98da869e748301182e4a81c4a9956c963c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 31/44] fix: a file that cannot be written is an error

---
 src/StarfishStrategy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index dbe7012..c682160 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -119,6 +119,10 @@ FungeError StarfishStrategy::instructionFile(){
 			for (size_t i = 0; i < x; ++i){
 				ofile << static_cast<char>(pop(TOP));
 			}
+			ofile.close();
+			if(ofile.fail()){
+				return ERROR_UNSPEC;
+			}
 		}
 		ret = ERROR_NONE;
 	}else{
-- 
2.43.0


From 445d796d9e23fc5c51f9d65bcdcbe508f9f79f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 32/44] fix: let BASE and STRN input reflect at the end of
 input

---
 src/fingerprint/FingerprintBASE.cpp       | 18 +++++++++++-------
 src/fingerprint/FingerprintSTRN.cpp       |  5 ++++-
 src/fingerprint/include/FingerprintBASE.h |  2 +-
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index f6f5b4a..27fd8e7 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -75,7 +75,10 @@ FungeError FingerprintBASE::execute(inst_t cmd){
 		} break;
 		case 'I':{
 			stack_t b = stack.top().pop();
-			stack_t i = readNum(b);
+			stack_t i = 0;
+			if(!readNum(b, &i)){
+				return ERROR_UNSPEC;
+			}
 			stack.top().push(i);
 		} break;
 		case 'N':{
@@ -126,16 +129,17 @@ void FingerprintBASE::printBase(stack_t num, unsigned int base, bool low) const{
 	}
 }
 
-stack_t FingerprintBASE::readNum(unsigned int base) const{
+bool FingerprintBASE::readNum(unsigned int base, stack_t* num) const{
 	std::string str;
-	std::cin >> str;
-	stack_t num = 0;
+	if(!(std::cin >> str)){
+		return false;
+	}
 	if(base <= 1){
-		num = str.size();
+		*num = str.size();
 	}else if(base <= sizeof(digit_map)){
-		readBase(str, &num, base);
+		readBase(str, num, base);
 	}
-	return num;
+	return true;
 }
 
 bool FingerprintBASE::readBase(std::string str, stack_t* num, unsigned int base) const{
diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 9d341e0..40de1bb 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -51,7 +51,10 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 		} break;
 		case 'I':{
 			std::string str;
-			std::getline(std::cin, str);
+			if(!std::getline(std::cin, str)){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			pushString(stack.top(), str);
 		} break;
 		case 'L':{
diff --git a/src/fingerprint/include/FingerprintBASE.h b/src/fingerprint/include/FingerprintBASE.h
index a75c451..90cea14 100644
--- a/src/fingerprint/include/FingerprintBASE.h
+++ b/src/fingerprint/include/FingerprintBASE.h
@@ -30,7 +30,7 @@ class FingerprintBASE : public Fingerprint {
 		
 		void printNum(stack_t num, unsigned int base) const;
 		void printBase(stack_t num, unsigned int base, bool low) const;
-		stack_t readNum(unsigned int base) const;
+		bool readNum(unsigned int base, stack_t* num) const;
 		bool readBase(std::string str, stack_t* num, unsigned int base) const;
 };
 
-- 
2.43.0


From fbc35f79dc3a33009b1414a60a06f3e5060e1369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 33/44] fix: copy a stack of stacks in its order

---
 src/StackStack.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index 678f84d..042a038 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -26,8 +26,8 @@ StackStack::StackStack(const StackStack& orig) :
 	select(orig.select),
 	stack()
 {
-	for(size_t i = 0; i < orig.size(); ++i){
-		stack.push_back(new Stack(orig.at(i)));
+	for(auto s : orig.stack){
+		stack.push_back(new Stack(*s));
 	}
 }
 
-- 
2.43.0


From 8f9a468fff43e2cdde66092a8fe141abac60abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 34/44] fix: do not use a fingerprint library that cannot be
 read

---
 src/fingerprint/FingerprintFungeLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fingerprint/FingerprintFungeLib.cpp b/src/fingerprint/FingerprintFungeLib.cpp
index fae1070..0793ab7 100644
--- a/src/fingerprint/FingerprintFungeLib.cpp
+++ b/src/fingerprint/FingerprintFungeLib.cpp
@@ -48,6 +48,11 @@ FingerprintFungeLib* FingerprintFungeLib::factory(FungeRunner& r, const std::str
 		config.fingerprints.push_back(FingerprintDynamic::ID);
 
 		fing = new FingerprintFungeLib(r, stream, config);
+		if(stream.bad()){
+			std::cerr << "Failed to read " << fl << std::endl;
+			delete fing;
+			return nullptr;
+		}
 	}
 	return fing;
 }
-- 
2.43.0


From 9a1e938da36c057ef9be74b15dd7e8c2d649d027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 35/44] fix: let a string contain cells that are not characters

---
 src/FungeStateString.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/FungeStateString.cpp b/src/FungeStateString.cpp
index 78cb7c0..fa8b7a0 100644
--- a/src/FungeStateString.cpp
+++ b/src/FungeStateString.cpp
@@ -7,9 +7,16 @@
 #include "FungeStateString.h"
 #include "FungeRunner.h"
 #include "FungeUniverse.h"
+#include <cctype>
+#include <climits>
 
 namespace Funge {
 
+// A cell holds any value, isspace() only takes characters.
+static bool isSpace(inst_t i){
+	return i >= 0 && i <= UCHAR_MAX && isspace(static_cast<int>(i));
+}
+
 FungeStateString::FungeStateString(FungeRunner& r) :
 	FungeState(r),
 	end('\"'),
@@ -65,7 +72,7 @@ FungeError FungeStateString::execute(inst_t i){
 				runner.push(static_cast<stack_t>(i));
 				break;
 			case STRING_SGML:
-				if(!isspace(i) || !isspace(previous)){
+				if(!isSpace(i) || !isSpace(previous)){
 					runner.push(static_cast<stack_t>(i));
 					previous = i;
 				}else{
-- 
2.43.0


From fffd0c4275ec944ff47870172368060f85c5bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 36/44] fix: copy exactly the given region between universes

The last corner of a VectorRange is part of it, so F and P copied one row and
one column more than asked for, and something even for an empty region.
---
 src/fingerprint/FingerprintMVRS.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintMVRS.cpp b/src/fingerprint/FingerprintMVRS.cpp
index e3c5bc1..f261340 100644
--- a/src/fingerprint/FingerprintMVRS.cpp
+++ b/src/fingerprint/FingerprintMVRS.cpp
@@ -129,7 +129,16 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 }
 
 void FingerprintMVRS::copySpace(const Field& fsrc, const Vector& src, const Vector& sz, Field& fdest, const Vector& dest) const {
-	VectorRange range(Vector{0}, sz);
+	// The range includes its last cell
+	Vector last(sz);
+	for(size_t d = 0; d < runner.getUniverse().dimensions(); ++d){
+		dim_t s = sz.get(d);
+		if(s == 0){
+			return;
+		}
+		last.set(d, (s > 0) ? s-1 : s+1);
+	}
+	VectorRange range(Vector{0}, last);
 	for(range.begin(); *range != range.end(); ++range){
 		inst_t i = fsrc.get(src + *range);
 		fdest.put(dest + *range, i);
-- 
2.43.0


From 0aef8817edf152f26077077d3fc6b87b2f1dfdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 37/44] fix: keep the dimensions given by the file format

---
 src/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 575e0e2..8ef901c 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -33,7 +33,7 @@ Field::Field(std::istream& file, FileFormat fmt, size_t dim, FungeCell csize) :
 			parseFungeLib(file);
 			break;
 	}
-	if(dim == 0){
+	if(dimensions == 0){
 		dimensions = maxs.size();
 	}
 }
-- 
2.43.0


From 4268d1e8a956b03d8f349cd339d48df273ffc517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 38/44] fix: report a malformed BeQunge file instead of
 crashing

---
 src/Field.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 8ef901c..e4a65c5 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -6,6 +6,7 @@
 
 #include "Field.h"
 #include <limits>
+#include <stdexcept>
 #include <string>
 #include <sstream>
 
@@ -27,7 +28,12 @@ Field::Field(std::istream& file, FileFormat fmt, size_t dim, FungeCell csize) :
 			parse(Vector{0}, file);
 			break;
 		case FORMAT_BEQ:
-			parseBeq(file);
+			try{
+				parseBeq(file);
+			}catch(const std::logic_error&){
+				std::cerr << "Malformed control line" << std::endl;
+				file.setstate(std::ios::badbit);
+			}
 			break;
 		case FORMAT_FL:
 			parseFungeLib(file);
@@ -123,19 +129,19 @@ void Field::parseBeq(std::istream& file){
 				// ok
 			}else if(cmd[0] == "Dimensions"){
 				if(dims == 0){
-					dims = std::stoul(cmd[1]);
+					dims = std::stoul(cmd.at(1));
 				}else{
 					std::cerr << "Unexpected dimensions" << std::endl;
 				}
 			}else if(cmd[0] == "Lines"){
-				lines = std::stoul(cmd[1]);
+				lines = std::stoul(cmd.at(1));
 			}else if(cmd[0] == "Origin"){
-				auto orig = splitString(cmd[1], ':');
+				auto orig = splitString(cmd.at(1), ':');
 				for(dim = 0; dim < orig.size(); ++dim){
 					origin.set(dim, std::stoi(orig[dim]));
 				}
 			}else if(cmd[0] == "Coord"){
-				auto orig = splitString(cmd[1], ':');
+				auto orig = splitString(cmd.at(1), ':');
 				size_t start = dim;
 				for( ; dim < orig.size()+start; ++dim){
 					if(orig[dim-start].size() > 0){
@@ -146,7 +152,7 @@ void Field::parseBeq(std::istream& file){
 		}
 		if(lines > 0){
 			Vector pos(origin);
-			for(size_t i = 0; i < lines; ++i){
+			for(size_t i = 0; i < lines && file.good(); ++i){
 				std::getline(file, line);
 				for(auto c : line){
 					put(pos, c);
-- 
2.43.0


From 2d85f1bb1a03363fc99867255889d2d562bb0f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 39/44] fix: write the whole row of a one-dimensional region

---
 src/Field.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index e4a65c5..1712b83 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -216,9 +216,9 @@ void Field::dump(const Vector& start, const Vector& delta, std::ostream& file, b
 			}
 			v.set(1, v[1]+1);   // ++y
 			v.set(0, start[0]); // x = 0
-		}
-		if(v[1] >= end[1]){
-			break;
+			if(v[1] >= end[1]){
+				break;
+			}
 		}
 	}
 }
-- 
2.43.0


From 9d7f0cb8d998a1dfec6a65ad65a56c051cea74c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 40/44] fix: write all planes of a three-dimensional region

---
 src/Field.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 1712b83..e142b12 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -217,7 +217,12 @@ void Field::dump(const Vector& start, const Vector& delta, std::ostream& file, b
 			v.set(1, v[1]+1);   // ++y
 			v.set(0, start[0]); // x = 0
 			if(v[1] >= end[1]){
-				break;
+				v.set(2, v[2]+1);   // ++z
+				v.set(1, start[1]); // y = 0
+				if(v[2] >= end[2]){
+					break;
+				}
+				file << '\f';
 			}
 		}
 	}
-- 
2.43.0


From b059f8f828b1b9aacd9ca663367abe43dbb0121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 41/44] fix: read words and lines as one input instruction at a
 time

---
 src/fingerprint/FingerprintBASE.cpp | 2 ++
 src/fingerprint/FingerprintSTRN.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index 27fd8e7..021f33a 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FingerprintBASE.h"
+#include "ScopedTermios.h"
 #include <algorithm>
 #include <iostream>
 
@@ -130,6 +131,7 @@ void FingerprintBASE::printBase(stack_t num, unsigned int base, bool low) const{
 }
 
 bool FingerprintBASE::readNum(unsigned int base, stack_t* num) const{
+	ScopedTermios term(~static_cast<tcflag_t>(0));
 	std::string str;
 	if(!(std::cin >> str)){
 		return false;
diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 40de1bb..376f5c4 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FingerprintSTRN.h"
+#include "ScopedTermios.h"
 #include "FungeUtilities.h"
 
 namespace Funge {
@@ -50,6 +51,7 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			pushString(stack.top(), str);
 		} break;
 		case 'I':{
+			ScopedTermios term(~static_cast<tcflag_t>(0));
 			std::string str;
 			if(!std::getline(std::cin, str)){
 				ret = ERROR_UNSPEC;
-- 
2.43.0


From ee09273f40a1c37b3730c28e65d6c5e5e9cd41c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 42/44] fix: seed the random numbers of FIXP and TOYS with
 random numbers

---
 src/fingerprint/include/FingerprintFIXP.h | 2 +-
 src/fingerprint/include/FingerprintTOYS.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/include/FingerprintFIXP.h b/src/fingerprint/include/FingerprintFIXP.h
index a7f479b..57ea3ef 100644
--- a/src/fingerprint/include/FingerprintFIXP.h
+++ b/src/fingerprint/include/FingerprintFIXP.h
@@ -19,7 +19,7 @@ class FingerprintFIXP : public Fingerprint {
 		virtual FungeError execute(inst_t cmd) override;
 
 	private:
-		std::default_random_engine rd;
+		std::random_device rd;
 		std::mt19937 gen;
 
 		double stackToFloat(stack_t n);
diff --git a/src/fingerprint/include/FingerprintTOYS.h b/src/fingerprint/include/FingerprintTOYS.h
index f0a31ac..d757b7c 100644
--- a/src/fingerprint/include/FingerprintTOYS.h
+++ b/src/fingerprint/include/FingerprintTOYS.h
@@ -19,7 +19,7 @@ class FingerprintTOYS : public Fingerprint {
 		virtual FungeError execute(inst_t cmd) override;
 		
 	private:
-		std::default_random_engine rd;
+		std::random_device rd;
 		std::mt19937 gen;
 		std::uniform_int_distribution<stack_t> dis;
 		
-- 
2.43.0


From 2323604c1e30aca3e7c1cdc2b849723789db72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:48 +0000
Subject: [PATCH 43/44] fix: open, close and reach under the selected stack

---
 src/Unefunge98Strategy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index c7b8eb3..4387366 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -166,7 +166,7 @@ FungeError Unefunge98Strategy::instructionClear(){
 
 FungeError Unefunge98Strategy::instructionUnder(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.hasSecond()){
 		const stack_t n = stack.top().pop();
 		if(n > 0){
 			for(stack_t i = 0; i < n; ++i){
@@ -187,7 +187,7 @@ FungeError Unefunge98Strategy::instructionUnder(){
 
 FungeError Unefunge98Strategy::instructionBegin(){
 	const stack_t n = stack.top().pop();
-	stack.push();
+	stack.insert(0);
 	if(n > 0){
 		stack_t trans[n];
 		for(stack_t i = 0; i < n; ++i){
@@ -213,7 +213,7 @@ FungeError Unefunge98Strategy::instructionBegin(){
 
 FungeError Unefunge98Strategy::instructionEnd(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.hasSecond()){
 		const stack_t n = stack.top().pop();
 		Vector v = popVector(runner, &stack.second());
 		ip.setStorage(v);
@@ -230,7 +230,7 @@ FungeError Unefunge98Strategy::instructionEnd(){
 				stack.second().pop();
 			}
 		}
-		stack.pop();
+		stack.remove(0);
 	}else{
 		ret = ERROR_UNSPEC;
 	}
-- 
2.43.0


From 71de12c6966be4c7b80acce8e97205fc3d7fdc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:48 +0000
Subject: [PATCH 44/44] fix: leave an empty stack alone when shifting it

---
 src/fingerprint/FingerprintFISH.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fingerprint/FingerprintFISH.cpp b/src/fingerprint/FingerprintFISH.cpp
index 5816128..35c0638 100644
--- a/src/fingerprint/FingerprintFISH.cpp
+++ b/src/fingerprint/FingerprintFISH.cpp
@@ -67,6 +67,9 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'L':{
 			stack_t len = stack.top().size();
+			if(len == 0){
+				break;
+			}
 			stack_t temp[len];
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
@@ -98,6 +101,9 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'R':{
 			stack_t len = stack.top().size();
+			if(len == 0){
+				break;
+			}
 			stack_t temp[len];
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
-- 
2.43.0

