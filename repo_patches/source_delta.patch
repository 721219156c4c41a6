From d23ea2f6996d06d53b1c9ac1093af28ff84042c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 001/168] fix: sort transform no longer reorders the upstream
 array in place

---
 packages/vgrammar-core/src/transforms/data/sort.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/data/sort.ts b/packages/vgrammar-core/src/transforms/data/sort.ts
index effd1a2..13ce6fd 100644
--- a/packages/vgrammar-core/src/transforms/data/sort.ts
+++ b/packages/vgrammar-core/src/transforms/data/sort.ts
@@ -8,7 +8,8 @@ export const transform = (options: SortTransformOptions, upstreamData: any[]) =>
   if (sort && upstreamData) {
     const sortFn = isFunction(sort) ? sort : compare(sort.field, sort.order);
 
-    upstreamData.sort((a: any, b: any) => sortFn(a, b));
+    // the array belongs to the upstream (another data or the user), never reorder it in place
+    return upstreamData.slice().sort((a: any, b: any) => sortFn(a, b));
   }
 
   return upstreamData;
-- 
2.43.0


From 2f46de5ed77b217e1def4fba1eeb972a53ddc2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 002/168] fix: detach keeps the remaining reference count of a
 dependency

---
 packages/vgrammar-core/src/view/grammar-base.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/grammar-base.ts b/packages/vgrammar-core/src/view/grammar-base.ts
index 759ef5e..1c5ca7f 100644
--- a/packages/vgrammar-core/src/view/grammar-base.ts
+++ b/packages/vgrammar-core/src/view/grammar-base.ts
@@ -168,7 +168,7 @@ export abstract class GrammarBase extends EventEmitter implements IGrammarBase {
       .forEach(ref => {
         const refCount = this.references.get(ref) - count;
         if (refCount > 0) {
-          this.references.set(ref, refCount - 1);
+          this.references.set(ref, refCount);
         } else {
           this.references.delete(ref);
           if (ref.targets.includes(this)) {
-- 
2.43.0


From c4ec93b2011204602d65424d96a5cf54db2bd7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 003/168] fix: data parsed with values drops its previous
 upstream source

---
 packages/vgrammar-core/src/view/data.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vgrammar-core/src/view/data.ts b/packages/vgrammar-core/src/view/data.ts
index c977849..66a3541 100644
--- a/packages/vgrammar-core/src/view/data.ts
+++ b/packages/vgrammar-core/src/view/data.ts
@@ -199,6 +199,7 @@ export class Data extends GrammarBase implements IData {
     this.detach(this.parseDataSource(this.spec).refs);
 
     this.spec = spec;
+    this.grammarSource = null;
 
     const dataSourceResult = this.parseDataSource(this.spec);
     this.attach(dataSourceResult.refs);
-- 
2.43.0


From 6b8755a4436a492ee3fbd12c79f9fc0e5d78a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 004/168] fix: scale.configure detaches the dependencies of the
 previous configuration

---
 packages/vgrammar-core/src/view/scale.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/scale.ts b/packages/vgrammar-core/src/view/scale.ts
index 0e4a53e..b15d275 100644
--- a/packages/vgrammar-core/src/view/scale.ts
+++ b/packages/vgrammar-core/src/view/scale.ts
@@ -172,12 +172,12 @@ export class Scale extends GrammarBase implements IScale {
   }
 
   configure(config: ScaleConfigureSpec | Nil) {
-    this.detach(parseScaleConfig(this.spec.type, config, this.view));
+    this.detach(parseScaleConfig(this.spec.type, this.spec as ScaleConfigureSpec, this.view));
     if (isNil(config)) {
       this.spec = { type: this.spec.type, domain: this.spec.domain, range: this.spec.range } as ScaleSpec;
     } else {
       Object.assign(this.spec, config);
-      this.attach(parseScaleConfig(this.spec.type, config, this.view));
+      this.attach(parseScaleConfig(this.spec.type, this.spec as ScaleConfigureSpec, this.view));
     }
     this.commit();
     return this;
-- 
2.43.0


From d3ccee299b390de9dd93e6137c91762d14c5dce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:42 +0000
Subject: [PATCH 005/168] fix: band and point scales honour falsy configuration
 values

---
 packages/vgrammar-core/src/parse/scale.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 337053a..7246190 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -395,11 +395,11 @@ function configureQuantizeScale(spec: QuantizeScaleSpec, scale: IQuantizeScale,
 }
 
 function configureBaseBandScale(spec: BaseBandScaleSpec, scale: IBandLikeScale, parameters: any) {
-  spec.round && scale.round(invokeFunctionType(spec.round, parameters, scale), true);
-  spec.padding && scale.padding(invokeFunctionType(spec.padding, parameters, scale), true);
-  spec.paddingInner && scale.paddingInner(invokeFunctionType(spec.paddingInner, parameters, scale), true);
-  spec.paddingOuter && scale.paddingOuter(invokeFunctionType(spec.paddingOuter, parameters, scale), true);
-  spec.align && scale.align(invokeFunctionType(spec.align, parameters, scale), true);
+  !isNil(spec.round) && scale.round(invokeFunctionType(spec.round, parameters, scale), true);
+  !isNil(spec.padding) && scale.padding(invokeFunctionType(spec.padding, parameters, scale), true);
+  !isNil(spec.paddingInner) && scale.paddingInner(invokeFunctionType(spec.paddingInner, parameters, scale), true);
+  !isNil(spec.paddingOuter) && scale.paddingOuter(invokeFunctionType(spec.paddingOuter, parameters, scale), true);
+  !isNil(spec.align) && scale.align(invokeFunctionType(spec.align, parameters, scale), true);
 }
 
 function configureBandScale(spec: BandScaleSpec, scale: IBandLikeScale, parameters: any) {
-- 
2.43.0


From b65eca3e1a51c746ecc18c70b1859c9a64c7f158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:42 +0000
Subject: [PATCH 006/168] fix: signal.set compares with a pending value and
 compares arrays by content

---
 packages/vgrammar-core/src/view/signal.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/view/signal.ts b/packages/vgrammar-core/src/view/signal.ts
index f1388b2..5143d37 100644
--- a/packages/vgrammar-core/src/view/signal.ts
+++ b/packages/vgrammar-core/src/view/signal.ts
@@ -37,9 +37,12 @@ export class Signal<T> extends GrammarBase implements ISignal<T> {
   }
 
   set(value: T) {
-    if (isArray(value) && isArray(this.value) && value.length === this.value.length) {
+    // a pending value which has not been evaluated yet is overridden by the new one
+    const currentValue: any = isNil(this.spec.value) ? this._signal : this.spec.value;
+
+    if (isArray(value) && isArray(currentValue) && value.length === currentValue.length) {
       for (let i = 0; i < value.length; i++) {
-        if (this.value[i] !== value[i]) {
+        if (currentValue[i] !== value[i]) {
           this._signal = value;
           this.spec.value = value;
 
@@ -48,7 +51,7 @@ export class Signal<T> extends GrammarBase implements ISignal<T> {
       }
       return false;
     }
-    if (this._signal !== value) {
+    if (currentValue !== value) {
       this._signal = value;
       this.spec.value = value;
 
-- 
2.43.0


From cace4c0b130f3baab136d3fba9245f7c65c5252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:42 +0000
Subject: [PATCH 007/168] fix: mark.coordinate detaches the previous coordinate

---
 packages/vgrammar-core/src/view/mark.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 05927c7..79fec83 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -354,6 +354,7 @@ export class Mark extends GrammarBase implements IMark {
   }
 
   coordinate(coordinate: ICoordinate | string | Nil) {
+    this.detach(this.coord);
     if (isString(coordinate)) {
       this.coord = this.view.getCoordinateById(coordinate);
     } else {
-- 
2.43.0


From 5d30a461f21ee59731e6d59250e69dee1eb13b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 008/168] fix: map transform without 'as' returns the mapped
 rows

---
 packages/vgrammar-core/src/transforms/data/map.ts | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/data/map.ts b/packages/vgrammar-core/src/transforms/data/map.ts
index 7333867..9f8cea1 100644
--- a/packages/vgrammar-core/src/transforms/data/map.ts
+++ b/packages/vgrammar-core/src/transforms/data/map.ts
@@ -6,17 +6,16 @@ export const transform = (options: MapTransformOption, upstreamData: any[], para
   const as = options.as;
 
   if (!options.all) {
+    if (isNil(as)) {
+      return upstreamData.map(entry => func(entry, params));
+    }
+
     upstreamData.forEach(entry => {
       const data = func(entry, params);
 
-      if (!isNil(as)) {
-        if (isNil(entry)) {
-          return;
-        }
+      if (!isNil(entry)) {
         entry[as] = data;
       }
-
-      return data;
     });
 
     return upstreamData;
-- 
2.43.0


From 887c838b348744ad3c7a1e83b8fd2513d55c7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:07 +0000
Subject: [PATCH 009/168] fix: identifier transform returns the rows instead of
 the last id

---
 packages/vgrammar-core/src/transforms/view/identifier.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/view/identifier.ts b/packages/vgrammar-core/src/transforms/view/identifier.ts
index 2efa5bf..14f39d6 100644
--- a/packages/vgrammar-core/src/transforms/view/identifier.ts
+++ b/packages/vgrammar-core/src/transforms/view/identifier.ts
@@ -28,5 +28,5 @@ export const transform = (options: IdentifierTransformOptions, upstreamData: any
   });
   view[COUNTER_NAME] = id;
 
-  return id;
+  return upstreamData;
 };
-- 
2.43.0


From b366aa5a93f0ff3ad2744aac9e8f068ed7052ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 010/168] fix: redeclaring channels after a whole-encoder
 function takes effect

---
 packages/vgrammar-core/src/view/mark.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 79fec83..70835c0 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -390,6 +390,7 @@ export class Mark extends GrammarBase implements IMark {
       // detach last dependencies
       if (isFunctionType(lastEncoder)) {
         this.detach(parseEncodeType(lastEncoder, this.view));
+        (this.spec.encode as any)[state] = {};
       } else {
         const isSingleChannel = isString(channel);
         const clearAll = (isSingleChannel && clear) || (!isSingleChannel && value);
-- 
2.43.0


From fe6176b5fa0e8da5ba593cceb6425c0a6e92393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 011/168] fix: attributes with a zero length channel are
 applied on update

---
 packages/vgrammar-core/src/graph/element.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index a8454d7..5ccd507 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -9,7 +9,6 @@ import {
   isString,
   isArray,
   get,
-  isEmpty,
   isEqual as isObjEqual,
   isObject
 } from '@visactor/vutils';
@@ -618,7 +617,7 @@ export class Element implements IElement {
   }
 
   protected applyGraphicAttributes(graphicAttributes: any) {
-    if (isEmpty(graphicAttributes)) {
+    if (!graphicAttributes || Object.keys(graphicAttributes).length === 0) {
       return;
     }
 
-- 
2.43.0


From 0f4d0c874a4612b06555a08a1795aeb671e3bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 012/168] fix: clearing states restores channels that are
 transformed into other attributes

---
 packages/vgrammar-core/src/graph/element.ts | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index 5ccd507..86cc84a 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -107,6 +107,17 @@ export class Element implements IElement {
         const graphicAttributes = transformAttributes(attrTransforms, attributes, this);
         return graphicAttributes;
       };
+
+      // when states are cleared, channels should be restored with their values before transformed
+      const getNormalAttribute = (this.graphicItem as any).getNormalAttribute;
+      (this.graphicItem as any).getNormalAttribute = (channel: string) => {
+        const graphicItem = this.graphicItem;
+        const value = getNormalAttribute.call(graphicItem, channel);
+        if (!this.mark || value !== graphicItem.attribute[channel]) {
+          return value;
+        }
+        return this.getGraphicAttribute(channel === 'shape' && isNil(value) ? 'symbolType' : channel);
+      };
     }
 
     // transform initial attributes
-- 
2.43.0


From f410115724d4bedd634c54ef7f44354b939d23be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 013/168] fix: runtime state attributes are not cached as the
 declared state

---
 packages/vgrammar-core/src/graph/element.ts       | 5 +++++
 packages/vgrammar-core/src/graph/glyph-element.ts | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index 86cc84a..5cee055 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -502,6 +502,11 @@ export class Element implements IElement {
 
     const graphicAttributes = this.transformElementItems(stateItems, this.mark.markType);
 
+    if (isRuntimeState) {
+      // runtime attributes should not be cached as the attributes of the declared state
+      return graphicAttributes;
+    }
+
     if (!this.graphicItem.states) {
       this.graphicItem.states = { [stateName]: graphicAttributes };
     } else if (!this.graphicItem.states[stateName]) {
diff --git a/packages/vgrammar-core/src/graph/glyph-element.ts b/packages/vgrammar-core/src/graph/glyph-element.ts
index 3d31fb4..5f04d6b 100644
--- a/packages/vgrammar-core/src/graph/glyph-element.ts
+++ b/packages/vgrammar-core/src/graph/glyph-element.ts
@@ -114,6 +114,11 @@ export class GlyphElement extends Element implements IGlyphElement {
 
       glyphStateAttributes.attributes = targetItems[0].nextAttrs;
 
+      if (isRuntimeState) {
+        // runtime attributes should not be cached as the attributes of the declared state
+        return glyphStateAttributes;
+      }
+
       if (!this.graphicItem.glyphStates) {
         this.graphicItem.glyphStates = { [stateName]: glyphStateAttributes };
       } else if (!this.graphicItem.glyphStates[stateName]) {
-- 
2.43.0


From cb8ebed097de6a4df8a5441b8593ae97092838f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 014/168] fix: pie transform accumulates angles without
 asEndAngle and handles a zero total

---
 packages/vgrammar-core/src/transforms/data/pie.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/data/pie.ts b/packages/vgrammar-core/src/transforms/data/pie.ts
index 8a31d8d..08fd14d 100644
--- a/packages/vgrammar-core/src/transforms/data/pie.ts
+++ b/packages/vgrammar-core/src/transforms/data/pie.ts
@@ -18,7 +18,7 @@ export const transform = (options: PieTransformOption, upstreamData: any[]) => {
   let lastAngle = startAngle;
   const data = upstreamData.map(originDatum => {
     const datum = Object.assign({}, originDatum);
-    const ratio = Number.parseFloat(datum[field]) / total;
+    const ratio = total === 0 ? 0 : Number.parseFloat(datum[field]) / total;
     const radian = ratio * intervalAngle;
 
     asRatio && (datum[asRatio] = ratio);
@@ -29,9 +29,12 @@ export const transform = (options: PieTransformOption, upstreamData: any[]) => {
     asQuadrant && (datum[asQuadrant] = computeQuadrant(lastAngle + radian / 2));
     asK && (datum[asK] = Number.parseFloat(datum[field]) / max);
 
-    lastAngle = datum[asEndAngle];
+    lastAngle += radian;
     return datum;
   });
-  data[data.length - 1][asEndAngle] = endAngle;
+  if (asEndAngle && total !== 0) {
+    // avoid a gap caused by accumulated rounding errors
+    data[data.length - 1][asEndAngle] = endAngle;
+  }
   return data;
 };
-- 
2.43.0


From cdc4c30a3c168187bad3d9f0ff0347d8f95d2d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 015/168] fix: 1d kde writes the density to its own default
 field

---
 packages/vgrammar-core/src/transforms/data/kde.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/data/kde.ts b/packages/vgrammar-core/src/transforms/data/kde.ts
index 00a92c2..1792c8c 100644
--- a/packages/vgrammar-core/src/transforms/data/kde.ts
+++ b/packages/vgrammar-core/src/transforms/data/kde.ts
@@ -83,7 +83,7 @@ export const transform = (options: KDETransformOption, upstreamData: any[]) => {
       const value = Math.min(extent[0] + step * (index + 0.5), extent[1]);
       return {
         [as[0] ?? defaultAs[0]]: value,
-        [as[1] ?? defaultAs[0]]: kde1d({ x: value } as IPointLike, data, bandwidth)
+        [as[1] ?? defaultAs[1]]: kde1d({ x: value } as IPointLike, data, bandwidth)
       };
     });
 
-- 
2.43.0


From 017812f1c8e2e67715447d306aae47adafc12952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 016/168] fix: bin transform puts the upper end of extent into
 the last bin

---
 packages/vgrammar-core/src/transforms/data/bin.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/data/bin.ts b/packages/vgrammar-core/src/transforms/data/bin.ts
index f6a72de..bacfcda 100644
--- a/packages/vgrammar-core/src/transforms/data/bin.ts
+++ b/packages/vgrammar-core/src/transforms/data/bin.ts
@@ -16,7 +16,11 @@ export const transform = (options: BinTransformOption, upstreamData: any[]) => {
   return upstreamData.map(upstreamDatum => {
     const datum = Object.assign({}, upstreamDatum);
     const value = upstreamDatum[options.field];
-    const binIndex = Math.floor((value - extent[0]) / binStep);
+    let binIndex = Math.floor((value - extent[0]) / binStep);
+    if (value === extent[1] && binIndex > 0 && extent[0] + binIndex * binStep >= extent[1]) {
+      // the last bin is closed, the upper end of extent does not have a bin of its own
+      binIndex -= 1;
+    }
     const binStart = extent[0] + binIndex * binStep;
     const binEnd = Math.min(extent[1], extent[0] + (binIndex + 1) * binStep);
     datum[options.as?.[0] ?? 'binStart'] = binStart;
-- 
2.43.0


From e0aece6bb3345e0051a3acd82a75fb9b2478c084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 017/168] fix: funnel transform computes the next ratio of the
 last row without asValueRatio

---
 packages/vgrammar-core/src/transforms/data/funnel.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/transforms/data/funnel.ts b/packages/vgrammar-core/src/transforms/data/funnel.ts
index 67c872b..52a87e4 100644
--- a/packages/vgrammar-core/src/transforms/data/funnel.ts
+++ b/packages/vgrammar-core/src/transforms/data/funnel.ts
@@ -40,7 +40,7 @@ export const transform = (options: FunnelTransformOption, upstreamData: any[]) =
     asValueRatio && (datum[asValueRatio] = currentValue / rangeArr[1]);
     asNextValueRatio &&
       (datum[asNextValueRatio] =
-        index === upstreamData.length - 1 ? (isCone ? 0 : datum[asValueRatio]) : nextValue / rangeArr[1]);
+        index === upstreamData.length - 1 ? (isCone ? 0 : currentValue / rangeArr[1]) : nextValue / rangeArr[1]);
     asLastValueRatio && (datum[asLastValueRatio] = index === 0 ? 1 : lastValue / rangeArr[1]);
     asCurrentValue && (datum[asCurrentValue] = currentValue);
 
-- 
2.43.0


From 04c7584c67d8afd24f227a4112c2ae4fc84a304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 018/168] fix: sampling does not overwrite upstream rows and
 keeps sampled points in their frame

---
 .../vgrammar-core/src/transforms/data/sampling.ts     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/data/sampling.ts b/packages/vgrammar-core/src/transforms/data/sampling.ts
index 6cc3c18..1c6ca14 100644
--- a/packages/vgrammar-core/src/transforms/data/sampling.ts
+++ b/packages/vgrammar-core/src/transforms/data/sampling.ts
@@ -98,7 +98,8 @@ function sample(size: number, array: any[], isGroup: boolean, mode: 'min' | 'max
       frameValues.push(array[i + k][yfield]);
     }
     const value = samplerMap[mode](frameValues);
-    sampledIndex = Math.min(Math.round(i + frameValues.length / 2) || 0, len - 1);
+    // the sampled point must stay inside of its own frame
+    sampledIndex = Math.min(Math.round(i + frameValues.length / 2) || 0, i + frameValues.length - 1);
     array[sampledIndex][yfield] = value;
     newIndices.push(sampledIndex);
   }
@@ -177,6 +178,8 @@ export const transform = (options: SampleTransformOptions, upstreamData: any[])
 
   // 处理数据source，source为采样前的原始数据
   if (upstreamData.length) {
+    // aggregated values are written to copies, the upstream rows are shared with other grammars or with the user
+    const rows = sampler === lttb ? upstreamData : upstreamData.map(datum => Object.assign({}, datum));
     // 如果有groupBy，数据分组
     const groups = {};
     if (groupBy) {
@@ -204,16 +207,16 @@ export const transform = (options: SampleTransformOptions, upstreamData: any[])
         } else {
           const indices = sampler(size, group, true, yfield);
           rawIndice = rawIndice.concat(indices);
-          group.forEach((datum: any) => (upstreamData[datum.i][yfield] = datum[yfield]));
+          group.forEach((datum: any) => (rows[datum.i][yfield] = datum[yfield]));
         }
       });
 
       // 采样后，按照原始顺序排序
       rawIndice.sort((a, b) => a - b);
 
-      return rawIndice.map((index: number) => upstreamData[index]);
+      return rawIndice.map((index: number) => rows[index]);
     }
-    return sampler(size, upstreamData, false, yfield).map(index => upstreamData[index]);
+    return sampler(size, rows, false, yfield).map(index => rows[index]);
   }
 
   return [];
-- 
2.43.0


From 38f34ca5a2259c781ef87188120ebe2beedb20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 019/168] fix: contour handles saddle cells, levels without
 crossings and non-square grids

---
 .../vgrammar-core/src/transforms/data/contour.ts | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/data/contour.ts b/packages/vgrammar-core/src/transforms/data/contour.ts
index 1d15710..d5ee552 100644
--- a/packages/vgrammar-core/src/transforms/data/contour.ts
+++ b/packages/vgrammar-core/src/transforms/data/contour.ts
@@ -76,12 +76,8 @@ const computeInteractionPoint = (
     });
   }
 
-  const thresholdFlag =
-    (thresholdCell[0] & 0b1000) +
-    (thresholdCell[1] & 0b0100) +
-    (thresholdCell[2] & 0b0010) +
-    (thresholdCell[3] & 0b0001);
-  if (thresholdFlag === 0b0110 || thresholdFlag === 0b1001) {
+  // all the four edges are crossed only in saddle cells
+  if (points.length === 4) {
     points[0].siblingPoint = points[1];
     points[1].siblingPoint = points[0];
     points[2].siblingPoint = points[3];
@@ -186,7 +182,7 @@ export const transform = (options: ContourTransformOption, upstreamData: any[])
 
     // connect points
     let processingPoints = points.slice();
-    do {
+    while (processingPoints.length > 0) {
       const connectedPoints = connectPoints(processingPoints[0], gridPoints);
       processingPoints.splice(0, 1);
       if (connectedPoints.length) {
@@ -198,14 +194,14 @@ export const transform = (options: ContourTransformOption, upstreamData: any[])
           [options.asPoints ?? 'points']: connectedPoints.map(point => {
             // normalize grid index into [0, 1]
             return {
-              x: point.point.x / row,
-              y: point.point.y / column
+              x: point.point.x / column,
+              y: point.point.y / row
             };
           })
         };
         contours.push(contour);
       }
-    } while (processingPoints.length > 0);
+    }
   });
 
   return contours;
-- 
2.43.0


From 10b4e94edeeece363439ee88a18db6c222baf28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:35 +0000
Subject: [PATCH 020/168] fix: signals inside array transform options are
 dependencies and resolve to their values

---
 packages/vgrammar-core/src/parse/option.ts    | 4 +++-
 packages/vgrammar-core/src/parse/transform.ts | 6 +-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/option.ts b/packages/vgrammar-core/src/parse/option.ts
index bce7cad..633cf3f 100644
--- a/packages/vgrammar-core/src/parse/option.ts
+++ b/packages/vgrammar-core/src/parse/option.ts
@@ -1,10 +1,12 @@
-import { isFunction, isObject } from '@visactor/vutils';
+import { isArray, isFunction, isObject } from '@visactor/vutils';
 import type { IGrammarBase } from '../types';
 import { isGrammar } from './util';
 
 export const parseOptionValue = (value: IGrammarBase | any, params: any) => {
   if (isGrammar(value)) {
     return value.output();
+  } else if (isArray(value)) {
+    return value.map((entry: IGrammarBase | any) => (isGrammar(entry) ? entry.output() : entry));
   } else if (value && isObject<any>(value)) {
     if (isFunction(value.callback)) {
       return (datum: any) => {
diff --git a/packages/vgrammar-core/src/parse/transform.ts b/packages/vgrammar-core/src/parse/transform.ts
index d5e8c36..cb4de35 100644
--- a/packages/vgrammar-core/src/parse/transform.ts
+++ b/packages/vgrammar-core/src/parse/transform.ts
@@ -68,11 +68,7 @@ const parseTransformOption = (key: string, transformSpecValue: TransformSpecValu
 
     return {
       references: values.reduce((res: any[], val: any) => {
-        if (val.references) {
-          res.concat(val.references);
-        }
-
-        return res;
+        return val.references ? res.concat(val.references) : res;
       }, []),
       value: values.map((entry: any) => entry.value)
     };
-- 
2.43.0


From f482d9f75b8ed37147ccfa6233d2e2a974466082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 021/168] fix: polar coordinate keeps both radii given as an
 array

---
 packages/vgrammar-coordinate/src/polar.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-coordinate/src/polar.ts b/packages/vgrammar-coordinate/src/polar.ts
index 2e7c407..29ef36e 100644
--- a/packages/vgrammar-coordinate/src/polar.ts
+++ b/packages/vgrammar-coordinate/src/polar.ts
@@ -106,7 +106,7 @@ export class PolarCoordinate extends Coordinate implements IPolarCoordinate {
     this._isUserRadius = true;
     if (Array.isArray(radius)) {
       this.innerRadius = Math.min(radius[0], radius[1]);
-      this.outerRadius = Math.max(radius[1], radius[1]);
+      this.outerRadius = Math.max(radius[0], radius[1]);
     } else {
       this.innerRadius = Math.min(radius, outerRadius);
       this.outerRadius = Math.max(radius, outerRadius);
-- 
2.43.0


From 284a3fa9d4083aefa4e193942726584e71257dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 022/168] fix: polar coordinate centres its default origin and
 fits the radius to a declared origin

---
 packages/vgrammar-coordinate/src/polar.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-coordinate/src/polar.ts b/packages/vgrammar-coordinate/src/polar.ts
index 29ef36e..b85c1ae 100644
--- a/packages/vgrammar-coordinate/src/polar.ts
+++ b/packages/vgrammar-coordinate/src/polar.ts
@@ -63,10 +63,17 @@ export class PolarCoordinate extends Coordinate implements IPolarCoordinate {
     super._updateSize();
 
     if (!this._isUserOrigin) {
-      this.originPoint = { x: this.width / 2, y: this.height / 2 };
+      this.originPoint = {
+        x: (this.startPoint.x + this.endPoint.x) / 2,
+        y: (this.startPoint.y + this.endPoint.y) / 2
+      };
       this._invokeTransforms();
     }
 
+    this._updateOuterRadius();
+  }
+
+  private _updateOuterRadius() {
     if (!this._isUserRadius) {
       this.outerRadius = Math.min(
         Math.abs(this.startPoint.x - this.originPoint.x),
@@ -127,6 +134,9 @@ export class PolarCoordinate extends Coordinate implements IPolarCoordinate {
     }
     this._isUserOrigin = true;
     this.originPoint = this._parsePoint(x, y);
+    if (this.width || this.height) {
+      this._updateOuterRadius();
+    }
     this._updateStartEndPoint();
     // TODO: maybe use dirty flag to update matrix instead
     this._invokeTransforms();
-- 
2.43.0


From be66330ece7b0ddb56dfb3398c7bbe4caa181ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 023/168] fix: missing and non-numeric field values no longer
 break continuous scale domains

---
 packages/vgrammar-core/src/parse/scale.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 7246190..873502e 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -2,7 +2,6 @@ import {
   isArray,
   isFunction,
   isNil,
-  isNumber,
   isString,
   isValidNumber,
   maxInArray,
@@ -460,7 +459,8 @@ function parseScaleDataTypeValue(
   }
 
   if (filterNumber) {
-    fieldData.filter(entry => isNumber(entry));
+    const validData = fieldData.filter(entry => !isNil(entry) && !Number.isNaN(+entry));
+    return [minInArray(validData), maxInArray(validData)];
   }
   return [minInArray(fieldData), maxInArray(fieldData)];
 }
-- 
2.43.0


From d5835a744f654b0eac8a56a379071f23049a1c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 024/168] fix: quantize scales take the extent of a data domain

---
 packages/vgrammar-core/src/parse/scale.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 873502e..a4a4aef 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -447,6 +447,7 @@ function parseMultiFieldData(spec: MultiScaleData, parameters: any) {
 function parseScaleDataTypeValue(
   fieldData: any[],
   scale: IBaseScale,
+  scaleType: GrammarScaleType,
   sort?: (datumA: any, datumB: any) => number,
   filterNumber?: boolean
 ) {
@@ -454,7 +455,8 @@ function parseScaleDataTypeValue(
     fieldData.sort(sort);
   }
 
-  if (!isContinuous(scale.type)) {
+  // the domain of a quantize scale is an extent, only its range is a list of values
+  if (!isContinuous(scale.type) && !(scaleType === 'quantize' && filterNumber)) {
     return fieldData;
   }
 
@@ -467,10 +469,10 @@ function parseScaleDataTypeValue(
 
 export function configureScale(spec: ScaleSpec, scale: IBaseScale, parameters: any) {
   if (isScaleDataType(spec.domain)) {
-    scale.domain(parseScaleDataTypeValue(parseFieldData(spec.domain, parameters), scale, spec.domain.sort, true), true);
+    scale.domain(parseScaleDataTypeValue(parseFieldData(spec.domain, parameters), scale, spec.type, spec.domain.sort, true), true);
   } else if (isMultiScaleDataType(spec.domain)) {
     scale.domain(
-      parseScaleDataTypeValue(parseMultiFieldData(spec.domain, parameters), scale, spec.domain.sort, true),
+      parseScaleDataTypeValue(parseMultiFieldData(spec.domain, parameters), scale, spec.type, spec.domain.sort, true),
       true
     );
   } else {
@@ -479,9 +481,9 @@ export function configureScale(spec: ScaleSpec, scale: IBaseScale, parameters: a
 
   if (spec.type !== 'identity') {
     if (isScaleDataType(spec.range)) {
-      scale.range(parseScaleDataTypeValue(parseFieldData(spec.range, parameters), scale), true);
+      scale.range(parseScaleDataTypeValue(parseFieldData(spec.range, parameters), scale, spec.type), true);
     } else if (isMultiScaleDataType(spec.range)) {
-      scale.range(parseScaleDataTypeValue(parseMultiFieldData(spec.range, parameters), scale), true);
+      scale.range(parseScaleDataTypeValue(parseMultiFieldData(spec.range, parameters), scale, spec.type), true);
     } else if (isScaleCoordinateType(spec.range)) {
       const coord = getGrammarOutput(spec.range.coordinate, parameters);
 
-- 
2.43.0


From 22539f69f596bf5466009c15a9ce164a692e8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 025/168] fix: log base, power exponent and symlog constant are
 applied before niceness

---
 packages/vgrammar-core/src/parse/scale.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index a4a4aef..5ecd542 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -349,22 +349,23 @@ function configureLinearScale(spec: Omit<LinearScaleSpec, 'type'>, scale: ILinea
 }
 
 function configurePowScale(spec: PowScaleSpec, scale: IPowScale, parameters: any) {
-  configureLinearScale(spec, scale, parameters);
-
   const exponent = invokeFunctionType(spec.exponent, parameters, scale);
   if (exponent > 0) {
     scale.exponent(exponent as number);
   }
+
+  configureLinearScale(spec, scale, parameters);
 }
 
 function configureLogScale(spec: LogScaleSpec, scale: ILogScale, parameters: any) {
-  configureScaleNice(spec, scale, parameters);
-  configureScaleDomain(spec, scale, parameters);
-
+  // the base decides which domain is nice
   const base = invokeFunctionType(spec.base, parameters, scale);
   if (base > 0) {
     scale.base(base as number);
   }
+
+  configureScaleNice(spec, scale, parameters);
+  configureScaleDomain(spec, scale, parameters);
   configureContinuousScale(spec, scale, parameters);
 }
 
@@ -379,12 +380,12 @@ function configureTimeScale(spec: Omit<TimeScaleSpec, 'type'>, scale: ILinearSca
 }
 
 function configureSymlogScale(spec: SymlogScaleSpec, scale: ISymlogScale, parameters: any) {
-  configureLinearScale(spec, scale, parameters);
-
   const constant = invokeFunctionType(spec.constant, parameters, scale);
   if (isValidNumber(constant)) {
     scale.constant(constant as number);
   }
+
+  configureLinearScale(spec, scale, parameters);
 }
 
 function configureQuantizeScale(spec: QuantizeScaleSpec, scale: IQuantizeScale, parameters: any) {
-- 
2.43.0


From f1b55bd4dff05f19da425c2110dc66a146dc2bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 026/168] fix: scales do not keep options, domains or ranges
 that were removed, and tickCount signals are dependencies

---
 packages/vgrammar-core/src/parse/scale.ts | 5 +++++
 packages/vgrammar-core/src/view/scale.ts  | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 5ecd542..2c97ef8 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -157,6 +157,7 @@ function parseLinearScale(spec: Omit<LinearScaleSpec, 'type'>, view: IView) {
   dependencies = dependencies.concat(parseFunctionType(spec.max, view));
   dependencies = dependencies.concat(parseFunctionType(spec.zero, view));
   dependencies = dependencies.concat(parseFunctionType(spec.roundRange, view));
+  dependencies = dependencies.concat(parseFunctionType(spec.tickCount, view));
   return dependencies;
 }
 
@@ -177,6 +178,7 @@ function parseLogScale(spec: Omit<LogScaleSpec, 'type'>, view: IView) {
   dependencies = dependencies.concat(parseFunctionType(spec.max, view));
   dependencies = dependencies.concat(parseFunctionType(spec.zero, view));
   dependencies = dependencies.concat(parseFunctionType(spec.roundRange, view));
+  dependencies = dependencies.concat(parseFunctionType(spec.tickCount, view));
   return dependencies;
 }
 
@@ -318,6 +320,9 @@ function configureContinuousScale(spec: Omit<ContinuousScaleSpec, 'type'>, scale
 
   if (rangeRound) {
     scale.rangeRound(scale.range(), true);
+  } else if (!isNil(spec.roundRange)) {
+    // the range is no longer rounded
+    scale.interpolate((createScale(scale.type as GrammarScaleType) as IContinuousScale).interpolate(), true);
   }
 
   const { interpolate, clamp } = invokeFunctionType(spec.config, parameters, scale) ?? {};
diff --git a/packages/vgrammar-core/src/view/scale.ts b/packages/vgrammar-core/src/view/scale.ts
index b15d275..718d1a9 100644
--- a/packages/vgrammar-core/src/view/scale.ts
+++ b/packages/vgrammar-core/src/view/scale.ts
@@ -26,6 +26,8 @@ export class Scale extends GrammarBase implements IScale {
   private scale: IBaseScale;
   private _rangeFactor?: [number, number];
   private _fishEyeOptions?: ScaleFishEyeOptions;
+  /** options were removed or replaced, the scale must not keep what they configured */
+  private _isStale: boolean = false;
 
   constructor(view: IView, scaleType: GrammarScaleType) {
     super(view);
@@ -48,8 +50,9 @@ export class Scale extends GrammarBase implements IScale {
     if (!this.spec.type) {
       this.spec.type = 'linear';
     }
-    if (!this.scale || this.scale.type !== this.spec.type) {
+    if (!this.scale || this._isStale || this.scale.type !== this.spec.type) {
       this.scale = createScale(this.spec.type);
+      this._isStale = false;
     }
     configureScale(this.spec as ScaleSpec, this.scale, parameters);
 
@@ -93,6 +96,7 @@ export class Scale extends GrammarBase implements IScale {
     if (!isNil(this.spec.domain)) {
       this.detach(parseScaleDomainRange(this.spec.domain, this.view));
     }
+    this._isStale = this._isStale || (isNil(domain) && !isNil(this.spec.domain));
     this.spec.domain = domain;
     this.attach(parseScaleDomainRange(domain, this.view));
     this.commit();
@@ -103,6 +107,7 @@ export class Scale extends GrammarBase implements IScale {
     if (!isNil(this.spec.range)) {
       this.detach(parseScaleDomainRange(this.spec.range, this.view));
     }
+    this._isStale = this._isStale || (isNil(range) && !isNil(this.spec.range));
     this.spec.range = range;
     this.attach(parseScaleDomainRange(range, this.view));
     this.commit();
@@ -179,6 +184,7 @@ export class Scale extends GrammarBase implements IScale {
       Object.assign(this.spec, config);
       this.attach(parseScaleConfig(this.spec.type, this.spec as ScaleConfigureSpec, this.view));
     }
+    this._isStale = true;
     this.commit();
     return this;
   }
-- 
2.43.0


From 27c54f7d42a91f6de8d1a0d6c3b78aed69588705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 027/168] fix: clearing the range factor of a scale takes
 effect

---
 packages/vgrammar-core/src/view/scale.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/scale.ts b/packages/vgrammar-core/src/view/scale.ts
index 718d1a9..3b13156 100644
--- a/packages/vgrammar-core/src/view/scale.ts
+++ b/packages/vgrammar-core/src/view/scale.ts
@@ -61,7 +61,7 @@ export class Scale extends GrammarBase implements IScale {
         (this.scale as unknown as IRangeFactor).rangeFactor(this._rangeFactor);
       } else if ((this.scale as unknown as IRangeFactor).rangeFactor()) {
         // clear rangeFactor
-        (this.scale as unknown as IRangeFactor).rangeFactor(null, false, true);
+        (this.scale as unknown as IRangeFactor).rangeFactor([0, 1]);
       }
 
       if (this._fishEyeOptions) {
-- 
2.43.0


From 21e209748447edfcd38902e5a68a303a88674e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 028/168] fix: a signal used as log base is a dependency of the
 scale

---
 packages/vgrammar-core/src/parse/scale.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 2c97ef8..e845651 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -179,6 +179,7 @@ function parseLogScale(spec: Omit<LogScaleSpec, 'type'>, view: IView) {
   dependencies = dependencies.concat(parseFunctionType(spec.zero, view));
   dependencies = dependencies.concat(parseFunctionType(spec.roundRange, view));
   dependencies = dependencies.concat(parseFunctionType(spec.tickCount, view));
+  dependencies = dependencies.concat(parseFunctionType((spec as LogScaleSpec).base, view));
   return dependencies;
 }
 
-- 
2.43.0


From 63b9a5cf8a678d372ae62b629efe4a053048aadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 029/168] fix: tickCount together with clamp no longer throws

---
 packages/vgrammar-core/src/parse/scale.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index e845651..fecf127 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -343,6 +343,7 @@ function configureContinuousScale(spec: Omit<ContinuousScaleSpec, 'type'>, scale
   const tickCount = invokeFunctionType(spec.tickCount, parameters, scale);
   if (tickCount) {
     // tickCount may change the domain of scale, so need to call here
+    scale.rescale();
     scale.tickData(tickCount);
   }
 }
-- 
2.43.0


From befbb77094373ed761cd035032e1e43529657e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 030/168] fix: point scales accept the band padding options

---
 packages/vgrammar-core/src/parse/scale.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index fecf127..01278c1 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -414,7 +414,13 @@ function configureBandScale(spec: BandScaleSpec, scale: IBandLikeScale, paramete
 }
 
 function configurePointScale(spec: PointScaleSpec, scale: IBandLikeScale, parameters: any) {
-  return configureBaseBandScale(spec, scale, parameters);
+  // points have no inner padding, their outer padding is the padding
+  const { paddingInner, paddingOuter, ...rest } = spec;
+  return configureBaseBandScale(
+    isNil(paddingOuter) ? rest : { ...rest, padding: paddingOuter },
+    scale as IBandLikeScale,
+    parameters
+  );
 }
 
 function parseFieldData(spec: ScaleData, parameters: any) {
-- 
2.43.0


From 6106dd961377c328e963ff58ba95fecbbe0ee6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 031/168] fix: configuring a scale does not depend on its
 visible range factor

---
 packages/vgrammar-core/src/view/scale.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/view/scale.ts b/packages/vgrammar-core/src/view/scale.ts
index 3b13156..15ea6b2 100644
--- a/packages/vgrammar-core/src/view/scale.ts
+++ b/packages/vgrammar-core/src/view/scale.ts
@@ -54,14 +54,15 @@ export class Scale extends GrammarBase implements IScale {
       this.scale = createScale(this.spec.type);
       this._isStale = false;
     }
+    if (supportRangeFactor(this.scale.type) && (this.scale as unknown as IRangeFactor).rangeFactor()) {
+      // clear rangeFactor, the scale is configured independently of the visible range
+      (this.scale as unknown as IRangeFactor).rangeFactor([0, 1]);
+    }
     configureScale(this.spec as ScaleSpec, this.scale, parameters);
 
     if (this.scale && supportRangeFactor(this.scale.type)) {
       if (this._rangeFactor) {
         (this.scale as unknown as IRangeFactor).rangeFactor(this._rangeFactor);
-      } else if ((this.scale as unknown as IRangeFactor).rangeFactor()) {
-        // clear rangeFactor
-        (this.scale as unknown as IRangeFactor).rangeFactor([0, 1]);
       }
 
       if (this._fishEyeOptions) {
-- 
2.43.0


From 80d6b07b55d05f2a95babb202c1cb282150825c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 032/168] fix: restoring the interpolation of a scale
 type-checks

---
 packages/vgrammar-core/src/parse/scale.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/scale.ts b/packages/vgrammar-core/src/parse/scale.ts
index 01278c1..5c16acb 100644
--- a/packages/vgrammar-core/src/parse/scale.ts
+++ b/packages/vgrammar-core/src/parse/scale.ts
@@ -17,7 +17,8 @@ import type {
   IContinuousScale,
   IContinuesScaleTicks,
   IQuantizeScale,
-  IQuantileScale
+  IQuantileScale,
+  InterpolateType
 } from '@visactor/vscale';
 // eslint-disable-next-line no-duplicate-imports
 import {
@@ -323,7 +324,9 @@ function configureContinuousScale(spec: Omit<ContinuousScaleSpec, 'type'>, scale
     scale.rangeRound(scale.range(), true);
   } else if (!isNil(spec.roundRange)) {
     // the range is no longer rounded
-    scale.interpolate((createScale(scale.type as GrammarScaleType) as IContinuousScale).interpolate(), true);
+    const original = createScale(scale.type as GrammarScaleType) as IContinuousScale;
+
+    scale.interpolate(original.interpolate() as InterpolateType<any>, true);
   }
 
   const { interpolate, clamp } = invokeFunctionType(spec.config, parameters, scale) ?? {};
-- 
2.43.0


From 3ffb9c1c69644c6a6978443416efc647858106b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 033/168] fix: slice-dice treemaps alternate from the top level
 on

---
 packages/vgrammar-hierarchy/src/treemap/sliceDice.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-hierarchy/src/treemap/sliceDice.ts b/packages/vgrammar-hierarchy/src/treemap/sliceDice.ts
index ab82bb3..118b9b0 100644
--- a/packages/vgrammar-hierarchy/src/treemap/sliceDice.ts
+++ b/packages/vgrammar-hierarchy/src/treemap/sliceDice.ts
@@ -15,5 +15,5 @@ import type { TreemapNodeElement } from '../interface';
 import slice from './slice';
 
 export default function (parent: TreemapNodeElement, x0: number, y0: number, x1: number, y1: number) {
-  (parent.depth % 2 === 1 ? slice : dice)(parent, x0, y0, x1, y1);
+  (Math.abs(parent.depth) % 2 === 1 ? slice : dice)(parent, x0, y0, x1, y1);
 }
-- 
2.43.0


From ddfeba91ed71b5f1583f2d7cb7c3420f89d74acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 034/168] fix: circle packing uses the declared node order

---
 packages/vgrammar-hierarchy/src/circle-packing/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-hierarchy/src/circle-packing/layout.ts b/packages/vgrammar-hierarchy/src/circle-packing/layout.ts
index 888b78a..61ef00f 100644
--- a/packages/vgrammar-hierarchy/src/circle-packing/layout.ts
+++ b/packages/vgrammar-hierarchy/src/circle-packing/layout.ts
@@ -126,7 +126,7 @@ export class CirclePackingLayout {
     };
     const { nodeSort, setRadius, padding, includeRoot } = this.options ?? {};
     if (nodeSort !== false) {
-      const sort = (isFunction(nodeSort) ? this.options.nodeKey : CirclePackingLayout.defaultOpionts.nodeSort) as (
+      const sort = (isFunction(nodeSort) ? nodeSort : CirclePackingLayout.defaultOpionts.nodeSort) as (
         a: CirclePackingNodeElement,
         b: CirclePackingNodeElement
       ) => number;
-- 
2.43.0


From 7fe4335b0214cfba356d9610a9ebc8a2e2354681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 035/168] fix: treemap thresholds for children accept one value
 per depth

---
 packages/vgrammar-hierarchy/src/treemap/layout.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-hierarchy/src/treemap/layout.ts b/packages/vgrammar-hierarchy/src/treemap/layout.ts
index eeef4d4..cda59c1 100644
--- a/packages/vgrammar-hierarchy/src/treemap/layout.ts
+++ b/packages/vgrammar-hierarchy/src/treemap/layout.ts
@@ -154,13 +154,17 @@ export class TreemapLayout {
     return (isArray(this.options.labelPadding) ? this.options.labelPadding[depth] : this.options.labelPadding) ?? 0;
   };
 
+  private _getOptionByDepth(option: number | number[] | undefined, depth: number) {
+    return isArray(option) ? option[depth] : option;
+  }
+
   private _filterChildren(node: TreemapNodeElement) {
     const maxDepth = this.options.maxDepth;
     if (isNumber(maxDepth) && maxDepth >= 0 && node.depth >= maxDepth) {
       return false;
     }
 
-    const minChildrenVisibleArea = this.options.minChildrenVisibleArea;
+    const minChildrenVisibleArea = this._getOptionByDepth(this.options.minChildrenVisibleArea, node.depth);
     if (
       isNumber(minChildrenVisibleArea) &&
       Math.abs((node.x1 - node.x0) * (node.y1 - node.y0)) < minChildrenVisibleArea
@@ -168,7 +172,7 @@ export class TreemapLayout {
       return false;
     }
 
-    const minChildrenVisibleSize = this.options.minChildrenVisibleSize;
+    const minChildrenVisibleSize = this._getOptionByDepth(this.options.minChildrenVisibleSize, node.depth);
     if (
       isNumber(minChildrenVisibleSize) &&
       (Math.abs(node.x1 - node.x0) < minChildrenVisibleSize || Math.abs(node.y1 - node.y0) < minChildrenVisibleSize)
-- 
2.43.0


From f6458d259322a026b5241e12e99f77a01740e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 036/168] fix: inverse sankeys stay in a box that does not
 start at the origin

---
 packages/vgrammar-sankey/src/layout.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 16a1fe4..24ab8c1 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -179,7 +179,7 @@ export class SankeyLayout {
 
     if (isVertical(this.options.direction)) {
       if (this.options.inverse) {
-        const viewY1 = this._viewBox.x1;
+        const viewY1 = this._viewBox.x0 + this._viewBox.x1;
         nodes.forEach(node => {
           const { y0, y1, x0, x1 } = node;
 
@@ -219,15 +219,16 @@ export class SankeyLayout {
         });
       }
     } else if (this.options.inverse) {
+      const viewX1 = viewBox.x0 + viewBox.x1;
       nodes.forEach(node => {
         const { x0, x1 } = node;
-        node.x0 = viewBox.x1 - x1;
-        node.x1 = viewBox.x1 - x0;
+        node.x0 = viewX1 - x1;
+        node.x1 = viewX1 - x0;
       });
 
       links.forEach(link => {
-        link.x0 = viewBox.x1 - link.x0;
-        link.x1 = viewBox.x1 - link.x1;
+        link.x0 = viewX1 - link.x0;
+        link.x1 = viewX1 - link.x1;
       });
     }
 
-- 
2.43.0


From 010ec77e0ffc385e9a2907e01bc135d3b01d83c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 037/168] fix: a sankey layer is as wide as its widest node

---
 packages/vgrammar-sankey/src/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 24ab8c1..88d777d 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -628,7 +628,7 @@ export class SankeyLayout {
           node.x0 = curLayerX;
           node.x1 = curLayerX + curNodeWidth;
 
-          maxNodeWidth = Math.max(nodeWidth, curNodeWidth);
+          maxNodeWidth = Math.max(maxNodeWidth, curNodeWidth);
 
           const sourceLinks = node.sourceLinks;
 
-- 
2.43.0


From f366e7119c54a2743a30b0002cb539b4cf4fb7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 038/168] fix: a sankey with a single layer has finite
 positions

---
 packages/vgrammar-sankey/src/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 88d777d..48a86c4 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -575,7 +575,7 @@ export class SankeyLayout {
       if (isNumber(linkWidthOption)) {
         linkWidth = linkWidthOption;
       } else if (isNil(linkWidthOption)) {
-        let stepWidth = (width - nodeWidthOption) / (this._maxDepth - 1);
+        let stepWidth = (width - nodeWidthOption) / Math.max(this._maxDepth - 1, 1);
 
         if (minStepWidth > 0) {
           stepWidth = Math.max(minStepWidth, stepWidth);
-- 
2.43.0


From 3906ca7f60612fefc2e295a1f855166ea8b13e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 039/168] fix: links without a source or a target do not break
 the sankey relaxation

---
 packages/vgrammar-sankey/src/layout.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 48a86c4..68790e9 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -865,6 +865,9 @@ export class SankeyLayout {
 
         for (let k = 0, linkLen = target.targetLinks.length; k < linkLen; k++) {
           const link = target.targetLinks[k];
+          if (isNil(link.source)) {
+            continue;
+          }
           const v = link.value * (target.layer - this._nodeMap[link.source].layer);
           y += this.targetTop(this._nodeMap[link.source], target) * v;
           w += v;
@@ -895,6 +898,9 @@ export class SankeyLayout {
 
         for (let k = 0, linkLen = source.sourceLinks.length; k < linkLen; k++) {
           const link = source.sourceLinks[k];
+          if (isNil(link.target)) {
+            continue;
+          }
           const v = link.value * (this._nodeMap[link.target].layer - source.layer);
           y += this.sourceTop(source, this._nodeMap[link.target]) * v;
           w += v;
@@ -1077,11 +1083,11 @@ export class SankeyLayout {
 
       for (let j = 0, linkLen = targetLinks.length; j < linkLen; j++) {
         const link = targetLinks[j];
-        this._nodeMap[link.source].sourceLinks.sort(this._ascendingTargetBreadth);
+        this._nodeMap[link.source]?.sourceLinks.sort(this._ascendingTargetBreadth);
       }
       for (let j = 0, linkLen = sourceLinks.length; j < linkLen; j++) {
         const link = sourceLinks[j];
-        this._nodeMap[link.target].targetLinks.sort(this._ascendingSourceBreadth);
+        this._nodeMap[link.target]?.targetLinks.sort(this._ascendingSourceBreadth);
       }
     }
   }
-- 
2.43.0


From ebf032be615a3fdc0c1e117283cbc96b30ba9ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 040/168] fix: a sankey link without a value has no thickness
 instead of NaN

---
 packages/vgrammar-sankey/src/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 68790e9..3af5f1a 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -729,7 +729,7 @@ export class SankeyLayout {
       : (link: SankeyLinkElement, sourceNode: SankeyNodeElement, sourceNodeHeight: number) => {
           return Math.min(
             Math.max(
-              sourceNode.value ? sourceNodeHeight * linkClampe(link.value / sourceNode.value) : 0,
+              sourceNode.value ? sourceNodeHeight * linkClampe(toValidNumber(link.value) / sourceNode.value) : 0,
               minLinkHeight,
               0
             ),
-- 
2.43.0


From 67e54a5d83b1d8c30f98e70dd09a13283518e4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 041/168] fix: a partially specified node layer falls back to
 the computed one

---
 packages/vgrammar-sankey/src/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 3af5f1a..471421e 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -115,7 +115,7 @@ export class SankeyLayout {
     this._logger = Logger.getInstance();
     this._alignFunc = isFunction(this.options.setNodeLayer)
       ? (node: SankeyNodeElement) => {
-          return this.options.setNodeLayer(node.datum);
+          return this.options.setNodeLayer(node.datum) ?? node.depth;
         }
       : alignFunctions[this.options.nodeAlign];
   }
-- 
2.43.0


From eff686661ee48e4dd50fa4baa4c22dcafa760b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 042/168] fix: relaxing a sankey layer never widens the gap
 another layer had to give up

---
 packages/vgrammar-sankey/src/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 471421e..7c577d5 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -819,7 +819,7 @@ export class SankeyLayout {
         if (gapY + deltaY >= 0) {
           gapY += deltaY;
 
-          this._gapY = Math.min(gapY);
+          this._gapY = Math.min(this._gapY ?? gapY, gapY);
 
           for (let j = 1, len = nodes.length; j < len; ++j) {
             const node = nodes[j];
-- 
2.43.0


From b9507389993d4814da6e655a12b7caeb7ceb0fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:04 +0000
Subject: [PATCH 043/168] fix: a sankey without any flow has finite positions

---
 packages/vgrammar-sankey/src/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 7c577d5..ae46466 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -716,7 +716,7 @@ export class SankeyLayout {
           return forceNodeHeight;
         }
       : (node: SankeyNodeElement) => {
-          return Math.max(node.value * ky, 0);
+          return node.value > 0 ? Math.max(node.value * ky, 0) : 0;
         };
     const getLinkHeight = isNumber(this.options.linkHeight)
       ? () => this.options.linkHeight as number
-- 
2.43.0


From 0e77b6bacf94e887ad54168fdfb32a5a7ed5b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 044/168] fix: the value of a sankey node shared out to its
 links is never negative

---
 packages/vgrammar-sankey/src/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index ae46466..9020d44 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -65,7 +65,7 @@ const calcDivideValue = (node: SankeyNodeElement, isTarget?: boolean) => {
     { sum: 0, count: 0 }
   );
 
-  return res.count > 0 ? (node.value - res.sum) / res.count : null;
+  return res.count > 0 ? Math.max((node.value - res.sum) / res.count, 0) : null;
 };
 
 const alignFunctions = {
-- 
2.43.0


From 86f137bc8199708b1a9fe2d152e275f5233421de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 045/168] fix: sorting sankey nodes works when a layer is left
 empty

---
 packages/vgrammar-sankey/src/layout.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 9020d44..b33ac19 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -611,7 +611,7 @@ export class SankeyLayout {
     }
     if (this.options.nodeSortBy) {
       for (let j = 0, colLen = columns.length; j < colLen; j++) {
-        columns[j].sort(this.options.nodeSortBy);
+        columns[j]?.sort(this.options.nodeSortBy);
       }
     }
 
-- 
2.43.0


From 9636d1ee652637438c144e9b035703c4a838bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 046/168] fix: center aligned sankeys accept links without a
 target

---
 packages/vgrammar-sankey/src/layout.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index b33ac19..88393c4 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -36,11 +36,12 @@ function justify(node: SankeyNodeElement, maxDepth: number) {
 }
 
 function center(node: SankeyNodeElement, maxDepth: number, nodeMap: Record<string | number, SankeyNodeElement>) {
-  return node.targetLinks.length
-    ? node.depth
-    : node.sourceLinks.length
-    ? minInArray(node.sourceLinks.map(link => nodeMap[link.target].depth)) - 1
-    : 0;
+  if (node.targetLinks.length) {
+    return node.depth;
+  }
+  const targets = node.sourceLinks.map(link => nodeMap[link.target]).filter(target => !isNil(target));
+
+  return targets.length ? minInArray(targets.map(target => target.depth)) - 1 : 0;
 }
 
 const ascendingNodeBreadth = (a: SankeyNodeElement, b: SankeyNodeElement) => {
-- 
2.43.0


From cd9fb21a666bb01cd75a9365a26194a2d20e9a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:54 +0000
Subject: [PATCH 047/168] fix: relaxing a sankey works when a layer is left
 empty

---
 packages/vgrammar-sankey/src/layout.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 88393c4..842807b 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -859,6 +859,10 @@ export class SankeyLayout {
   relaxLeftToRight(columns: SankeyNodeElement[][], alpha: number, beta: number) {
     for (let i = 1, n = columns.length; i < n; ++i) {
       const column = columns[i];
+      if (!column) {
+        // a custom layer may leave some layers without any node
+        continue;
+      }
       for (let j = 0, colLen = column.length; j < colLen; j++) {
         const target = column[j];
         let y = 0;
@@ -892,6 +896,10 @@ export class SankeyLayout {
   relaxRightToLeft(columns: SankeyNodeElement[][], alpha: number, beta: number) {
     for (let n = columns.length, i = n - 2; i >= 0; --i) {
       const column = columns[i];
+      if (!column) {
+        // a custom layer may leave some layers without any node
+        continue;
+      }
       for (let j = 0, colLen = column.length; j < colLen; j++) {
         const source = column[j];
         let y = 0;
-- 
2.43.0


From 06cb20b8e3900243f30b1afddff22331698ebc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:54 +0000
Subject: [PATCH 048/168] fix: the values of a hierarchical sankey are summed
 below nodes that have a value, without changing the data

---
 packages/vgrammar-sankey/src/hierarchy.ts | 25 ++++++++++++-----------
 packages/vgrammar-sankey/src/layout.ts    |  6 +++---
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/packages/vgrammar-sankey/src/hierarchy.ts b/packages/vgrammar-sankey/src/hierarchy.ts
index 7743334..c8a590f 100644
--- a/packages/vgrammar-sankey/src/hierarchy.ts
+++ b/packages/vgrammar-sankey/src/hierarchy.ts
@@ -1,19 +1,20 @@
 import { isNil } from '@visactor/vutils';
 import type { HierarchyNodeDatum } from './interface';
 
-export const calculateNodeValue = (subTree: HierarchyNodeDatum[]) => {
-  let sum = 0;
-  subTree.forEach((node, index) => {
-    if (isNil(node.value)) {
-      if (node.children?.length) {
-        node.value = calculateNodeValue(node.children);
-      } else {
-        node.value = 0;
-      }
-    }
+/** the value of every node: its own, or the sum of its children when it has none; the data itself is not changed */
+export const calculateNodeValues = (
+  tree: HierarchyNodeDatum[],
+  values: Map<HierarchyNodeDatum, number> = new Map()
+): Map<HierarchyNodeDatum, number> => {
+  tree.forEach(node => {
+    const children = node.children ?? [];
+    calculateNodeValues(children, values);
 
-    sum += Math.abs(node.value);
+    values.set(
+      node,
+      isNil(node.value) ? children.reduce((sum, child) => sum + Math.abs(values.get(child)), 0) : node.value
+    );
   });
 
-  return sum;
+  return values;
 };
diff --git a/packages/vgrammar-sankey/src/layout.ts b/packages/vgrammar-sankey/src/layout.ts
index 842807b..f5d1f59 100644
--- a/packages/vgrammar-sankey/src/layout.ts
+++ b/packages/vgrammar-sankey/src/layout.ts
@@ -1,4 +1,4 @@
-import { calculateNodeValue } from './hierarchy';
+import { calculateNodeValues } from './hierarchy';
 import type { ILogger } from '@visactor/vutils';
 import {
   isNil,
@@ -251,7 +251,7 @@ export class SankeyLayout {
     const linkMap: Record<string | number, SankeyLinkElement> = {};
     const originalLinks: (SankeyLinkDatum & { parents?: SankeyNodeElement[] })[] = [];
 
-    calculateNodeValue(originalNodes);
+    const nodeValues = calculateNodeValues(originalNodes);
 
     const doSubTree = (subTree: HierarchyNodeDatum[], depth: number, parents?: SankeyNodeElement[]) => {
       subTree.forEach((node, index) => {
@@ -260,7 +260,7 @@ export class SankeyLayout {
           : parents
           ? `${parents[parents.length - 1].key}-${index}`
           : `${depth}-${index}`;
-        const nodeValue = isNil(node.value) ? 0 : toValidNumber(node.value);
+        const nodeValue = toValidNumber(nodeValues.get(node));
 
         if (nodeMap[nodeKey]) {
           nodeMap[nodeKey].value = undefined;
-- 
2.43.0


From 86374f91d1074f93279188b9fe95024898a949dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 049/168] fix: an escaped character in an access path does not
 hide the character after it

---
 packages/vgrammar-util/src/splitAccessPath.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-util/src/splitAccessPath.ts b/packages/vgrammar-util/src/splitAccessPath.ts
index 021b842..fe3fe94 100644
--- a/packages/vgrammar-util/src/splitAccessPath.ts
+++ b/packages/vgrammar-util/src/splitAccessPath.ts
@@ -31,8 +31,8 @@ export const splitAccessPath = (p: string) => {
   for (i = 0, j = 0; j < n; j += 1) {
     c = p[j];
     if (c === '\\') {
-      s += p.substring(i, j);
-      s += p.substring(++j, ++j);
+      // the escaped character starts the rest of the segment, whatever follows it is parsed as usual
+      s += p.substring(i, j++);
       i = j;
     } else if (c === q) {
       push();
-- 
2.43.0


From 8093fe2fe4edf0edb2d8e1dfd3845d873d21e078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 050/168] fix: option callbacks of a projection are given the
 projection

---
 packages/vgrammar-projection/src/projection.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-projection/src/projection.ts b/packages/vgrammar-projection/src/projection.ts
index d54b9e4..fdbb68f 100644
--- a/packages/vgrammar-projection/src/projection.ts
+++ b/packages/vgrammar-projection/src/projection.ts
@@ -163,21 +163,21 @@ export class Projection extends GrammarBase implements IProjection {
     }
     projectionProperties.forEach(prop => {
       if (!isNil(this.spec[prop])) {
-        set(this.projection, prop, invokeFunctionType(this.spec[prop], parameters, projection));
+        set(this.projection, prop, invokeFunctionType(this.spec[prop], parameters, this.projection));
       }
     });
 
     if (!isNil(this.spec.pointRadius)) {
-      this.projection.path.pointRadius(invokeFunctionType(this.spec.pointRadius, parameters, projection));
+      this.projection.path.pointRadius(invokeFunctionType(this.spec.pointRadius, parameters, this.projection));
     }
     if (!isNil(this.spec.fit) && (!isNil(this.spec.extent) || !isNil(this.spec.size))) {
-      const fit = invokeFunctionType(this.spec.fit, parameters, projection);
+      const fit = invokeFunctionType(this.spec.fit, parameters, this.projection);
       const data = collectGeoJSON(fit);
 
       if (this.spec.extent) {
-        this.projection.fitExtent(invokeFunctionType(this.spec.extent, parameters, projection), data);
+        this.projection.fitExtent(invokeFunctionType(this.spec.extent, parameters, this.projection), data);
       } else if (this.spec.size) {
-        this.projection.fitSize(invokeFunctionType(this.spec.size, parameters, projection), data);
+        this.projection.fitSize(invokeFunctionType(this.spec.size, parameters, this.projection), data);
       }
     }
 
-- 
2.43.0


From 14ff5e1588dbd16c6ece9d5c0ddf11a029ab5387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 051/168] fix: removing the options of a projection brings back
 their defaults and keeps its other dependencies

---
 packages/vgrammar-projection/src/projection.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-projection/src/projection.ts b/packages/vgrammar-projection/src/projection.ts
index fdbb68f..ba1c37b 100644
--- a/packages/vgrammar-projection/src/projection.ts
+++ b/packages/vgrammar-projection/src/projection.ts
@@ -150,17 +150,17 @@ export class Projection extends GrammarBase implements IProjection {
       };
     } else {
       Object.assign(this.spec, config);
-      this.attach(parseProjection(this.spec, this.view));
     }
+    this.attach(parseProjection(this.spec, this.view));
     this.commit();
     return this;
   }
 
   evaluate(upstream: any, parameters: any) {
-    if (!this.projection || this.projection.type !== this.spec.type) {
-      this.projection = create(this.spec.type);
-      this.projection.type = this.spec.type;
-    }
+    // start from the defaults of this type, options set in an earlier evaluation may be gone
+    this.projection = create(this.spec.type);
+    this.projection.type = this.spec.type;
+
     projectionProperties.forEach(prop => {
       if (!isNil(this.spec[prop])) {
         set(this.projection, prop, invokeFunctionType(this.spec[prop], parameters, this.projection));
-- 
2.43.0


From ec4dd63e0bb3a34c16b0121f7aa63575ca41e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:59 +0000
Subject: [PATCH 052/168] fix: the overlap of a venn set with its superset is
 drawn even when the circles touch

---
 packages/vgrammar-venn/src/utils/path.ts | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-venn/src/utils/path.ts b/packages/vgrammar-venn/src/utils/path.ts
index ccfb320..b292a6e 100644
--- a/packages/vgrammar-venn/src/utils/path.ts
+++ b/packages/vgrammar-venn/src/utils/path.ts
@@ -3,9 +3,28 @@ import type { IOverlapAreaStats } from '@visactor/vutils';
 import { PointService, SMALL, crossProduct, intersectionArea } from '@visactor/vutils';
 import type { IVennCircle, IVennOverlapArc } from './interface';
 
+const CONTAIN_TOLERANCE = 1e-6;
+
+/**
+ * a circle around another one adds nothing to their overlap.
+ * The comparison allows for rounding: the circle of a subset touches the one of its superset from the inside,
+ * where the intersection points can not be computed.
+ */
+const dropContainingCircles = (circles: IVennCircle[]) => {
+  return circles
+    .slice()
+    .sort((a, b) => a.radius - b.radius)
+    .reduce((res: IVennCircle[], circle) => {
+      const contains = (c: IVennCircle) =>
+        PointService.distancePP(c, circle) + c.radius <= circle.radius * (1 + CONTAIN_TOLERANCE);
+
+      return res.some(contains) ? res : res.concat(circle);
+    }, []);
+};
+
 export const getArcsFromCircles = (circles: IVennCircle[]) => {
   const areaStats: IOverlapAreaStats = {};
-  const circleList = Object.values(circles);
+  const circleList = dropContainingCircles(Object.values(circles));
   if (!circleList.length) {
     return [];
   }
-- 
2.43.0


From 5d7898c55f40799abced76ba0cbc20310546298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 053/168] fix: the distance for a partial overlap of two venn
 sets is found for every ratio of their sizes

---
 packages/vgrammar-venn/src/utils/layout/common.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-venn/src/utils/layout/common.ts b/packages/vgrammar-venn/src/utils/layout/common.ts
index 3014613..fd64d7a 100644
--- a/packages/vgrammar-venn/src/utils/layout/common.ts
+++ b/packages/vgrammar-venn/src/utils/layout/common.ts
@@ -18,11 +18,13 @@ export function distanceFromIntersectArea(r1: number, r2: number, overlap: numbe
     return Math.abs(r1 - r2);
   }
 
+  // nearer than the difference of the radii the circles overlap completely,
+  // searching from there also keeps away from the rounding errors of the overlap around that distance
   return findZeroOfFunction(
     function (distance: number) {
       return circleOverlap(r1, r2, distance) - overlap;
     },
-    0,
+    Math.abs(r1 - r2),
     r1 + r2
   );
 }
-- 
2.43.0


From 1ae325783d37c3225b01b48fcb228fcaa0fa27b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:04 +0000
Subject: [PATCH 054/168] fix: venn sets that only touch have no overlap to
 draw

---
 packages/vgrammar-venn/src/utils/path.ts | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-venn/src/utils/path.ts b/packages/vgrammar-venn/src/utils/path.ts
index b292a6e..be4b948 100644
--- a/packages/vgrammar-venn/src/utils/path.ts
+++ b/packages/vgrammar-venn/src/utils/path.ts
@@ -3,7 +3,7 @@ import type { IOverlapAreaStats } from '@visactor/vutils';
 import { PointService, SMALL, crossProduct, intersectionArea } from '@visactor/vutils';
 import type { IVennCircle, IVennOverlapArc } from './interface';
 
-const CONTAIN_TOLERANCE = 1e-6;
+const TOUCH_TOLERANCE = 1e-6;
 
 /**
  * a circle around another one adds nothing to their overlap.
@@ -16,16 +16,25 @@ const dropContainingCircles = (circles: IVennCircle[]) => {
     .sort((a, b) => a.radius - b.radius)
     .reduce((res: IVennCircle[], circle) => {
       const contains = (c: IVennCircle) =>
-        PointService.distancePP(c, circle) + c.radius <= circle.radius * (1 + CONTAIN_TOLERANCE);
+        PointService.distancePP(c, circle) + c.radius <= circle.radius * (1 + TOUCH_TOLERANCE);
 
       return res.some(contains) ? res : res.concat(circle);
     }, []);
 };
 
+/** circles that at most touch from the outside have nothing in common, up to rounding as well */
+const hasDisjointCircles = (circles: IVennCircle[]) => {
+  return circles.some((a, index) =>
+    circles
+      .slice(index + 1)
+      .some(b => PointService.distancePP(a, b) >= (a.radius + b.radius) * (1 - TOUCH_TOLERANCE))
+  );
+};
+
 export const getArcsFromCircles = (circles: IVennCircle[]) => {
   const areaStats: IOverlapAreaStats = {};
   const circleList = dropContainingCircles(Object.values(circles));
-  if (!circleList.length) {
+  if (!circleList.length || hasDisjointCircles(circleList)) {
     return [];
   }
   intersectionArea(circleList, areaStats);
-- 
2.43.0


From 073955cfbd6cf30a79ab4feb9147a8f26d372691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:02 +0000
Subject: [PATCH 055/168] fix: the words of a grid word cloud occupy the place
 where they are drawn, also when turned

---
 .../vgrammar-wordcloud/src/grid-layout.ts     | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/packages/vgrammar-wordcloud/src/grid-layout.ts b/packages/vgrammar-wordcloud/src/grid-layout.ts
index d422467..5c3ff4c 100644
--- a/packages/vgrammar-wordcloud/src/grid-layout.ts
+++ b/packages/vgrammar-wordcloud/src/grid-layout.ts
@@ -149,7 +149,8 @@ export class GridLayout extends BaseLayout<IGridLayoutOptions> implements IProgr
     // Instead of moving the box to the exact middle of the preferred
     // position, for Y-offset we move 0.4 instead, so Latin alphabets look
     // vertical centered.
-    const fillTextOffsetY = -fh * 0.4;
+    // The baseline is about 0.35 of the font size below the middle of the text.
+    const fillTextOffsetY = -fh * 0.4 + fontSize * 0.35;
 
     // Calculate the actual dimension of the canvas, considering the rotation.
     const cgh = Math.ceil(
@@ -167,21 +168,18 @@ export class GridLayout extends BaseLayout<IGridLayoutOptions> implements IProgr
     // Scale the canvas with |mu|.
     fctx.scale(1, 1);
     fctx.translate(width / 2, height / 2);
-    fctx.rotate(-angle);
+    // Text marks are turned by the same angle, see outputText().
+    fctx.rotate(angle);
 
     // Once the width/height is set, ctx info will be reset.
     // Set it again here.
     fctx.font = fontStyle + ' ' + fontWeight + ' ' + fontSize.toString(10) + 'px ' + fontFamily;
 
-    // Fill the text into the fcanvas.
-    // XXX: We cannot because textBaseline = 'top' here because
-    // Firefox and Chrome uses different default line-height for canvas.
-    // Please read https://bugzil.la/737852#c6.
-    // Here, we use textBaseline = 'middle' and draw the text at exactly
-    // 0.5 * fontSize lower.
+    // Text marks are centered on their anchor, on the alphabetic baseline.
     fctx.fillStyle = '#000';
-    fctx.textBaseline = 'middle';
-    fctx.fillText(word, fillTextOffsetX, fillTextOffsetY);
+    fctx.textAlign = 'center';
+    fctx.textBaseline = 'alphabetic';
+    fctx.fillText(word, 0, fillTextOffsetY);
 
     // Get the pixels of the text
     const imageData = fctx.getImageData(0, 0, width, height).data;
@@ -413,8 +411,8 @@ export class GridLayout extends BaseLayout<IGridLayoutOptions> implements IProgr
       angle: info.angle,
       width: info.fillTextWidth,
       height: info.fillTextHeight,
-      x: (gx + info.gw / 2) * this.gridSize,
-      y: (gy + info.gh / 2) * this.gridSize + info.fillTextOffsetY + info.fontSize * 0.5,
+      x: (gx + info.gw / 2) * this.gridSize - info.fillTextOffsetY * Math.sin(info.angle),
+      y: (gy + info.gh / 2) * this.gridSize + info.fillTextOffsetY * Math.cos(info.angle),
       fontSize: info.fontSize
     };
 
-- 
2.43.0


From fec00e694f4dcc0e817e9b2aa16a15d171fbf8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:02 +0000
Subject: [PATCH 056/168] fix: clipping a word that never fits into a grid word
 cloud comes to an end

---
 packages/vgrammar-wordcloud/src/grid-layout.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-wordcloud/src/grid-layout.ts b/packages/vgrammar-wordcloud/src/grid-layout.ts
index 5c3ff4c..178814a 100644
--- a/packages/vgrammar-wordcloud/src/grid-layout.ts
+++ b/packages/vgrammar-wordcloud/src/grid-layout.ts
@@ -391,7 +391,8 @@ export class GridLayout extends BaseLayout<IGridLayoutOptions> implements IProgr
       }
     }
     if (this.options.clip) {
-      return this.layoutWord(index, shrinkRatio * 0.75);
+      // a single character can not be clipped any further
+      return info.text.length > 1 ? this.layoutWord(index, shrinkRatio * 0.75) : false;
     } else if (this.options.shrink && info.fontSize > this.options.minFontSize) {
       return this.layoutWord(index, shrinkRatio * 0.75);
     }
-- 
2.43.0


From bcb68977442e7ca1f43040f7b142ea5bda61d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:51 +0000
Subject: [PATCH 057/168] fix: a fast word cloud measures and places words as
 they are drawn, can be laid out in steps, and does not reorder the data

---
 .../vgrammar-wordcloud/src/fast-layout.ts     | 43 +++++++++----------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/packages/vgrammar-wordcloud/src/fast-layout.ts b/packages/vgrammar-wordcloud/src/fast-layout.ts
index 141f759..6bddc8a 100644
--- a/packages/vgrammar-wordcloud/src/fast-layout.ts
+++ b/packages/vgrammar-wordcloud/src/fast-layout.ts
@@ -39,7 +39,10 @@ export class FastLayout extends BaseLayout<IFastLayoutOptions> implements IProgr
   private height: number;
 
   static defaultOptions: Partial<IFastLayoutOptions> = {
-    enlarge: false
+    enlarge: false,
+    // every word is tried once, small words may find a place when the larger ones do not
+    maxSingleWordTryCount: 0,
+    maxFailCount: Infinity
   };
 
   constructor(options: IFastLayoutOptions) {
@@ -71,12 +74,13 @@ export class FastLayout extends BaseLayout<IFastLayoutOptions> implements IProgr
       y: this.center[1]
     };
 
-    const bounds = getTextBounds(info as ITextAttribute);
+    // the text is drawn centered on its anchor, on the alphabetic baseline
+    const bounds = getTextBounds({ ...info, textAlign: 'center', textBaseline: 'alphabetic' } as ITextAttribute);
 
     info.width = bounds.width();
     info.height = bounds.height();
-    info.top = this.center[1] - info.height + info.height * 0.21;
-    info.left = this.center[0] - info.width / 2;
+    info.top = bounds.y1;
+    info.left = bounds.x1;
 
     return info as TagItem;
   }
@@ -91,6 +95,9 @@ export class FastLayout extends BaseLayout<IFastLayoutOptions> implements IProgr
     let top = info.top;
     const width = info.width;
     const height = info.height;
+    // position of the anchor in the bounds of the text
+    const anchorX = info.x - info.left;
+    const anchorY = info.y - info.top;
     let rx = 1;
     let isFit = this.fit(info);
 
@@ -105,8 +112,8 @@ export class FastLayout extends BaseLayout<IFastLayoutOptions> implements IProgr
 
       info.left = left;
       info.top = top;
-      info.x = left + width / 2;
-      info.y = top + height / 2;
+      info.x = left + anchorX;
+      info.y = top + anchorY;
 
       isFit = this.fit(info);
     }
@@ -121,6 +128,10 @@ export class FastLayout extends BaseLayout<IFastLayoutOptions> implements IProgr
     ) {
       this.result.push(info);
 
+      if (this.progressiveResult) {
+        this.progressiveResult.push(info);
+      }
+
       return true;
     }
 
@@ -138,25 +149,13 @@ export class FastLayout extends BaseLayout<IFastLayoutOptions> implements IProgr
     this.center = [config.width / 2, config.height / 2];
     this.width = config.width;
     this.height = config.height;
-    this.data = data.sort((a: any, b: any) => {
+    // 将words按照fontSize排序，结果更美观
+    this.data = data.slice().sort((a: any, b: any) => {
       return this.getTextFontSize(b) - this.getTextFontSize(a);
     });
+    this.originalData = this.data;
 
-    // 将words按照fontSize排序，结果更美观
-    // words.sort((a, b) => b.fontSize - a.fontSize);
-
-    let i = 0;
-
-    while (i < data.length) {
-      const drawn = this.layoutWord(i);
-
-      i++;
-      this.progressiveIndex = i;
-
-      if (this.exceedTime()) {
-        break;
-      }
-    }
+    this.progressiveRun();
 
     return this.result;
   }
-- 
2.43.0


From 02142c31204568697cf311ac0d6ecf0fe0540937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:52 +0000
Subject: [PATCH 058/168] fix: a word cloud that gave up on the remaining words
 is finished

---
 packages/vgrammar-wordcloud/src/base.ts | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-wordcloud/src/base.ts b/packages/vgrammar-wordcloud/src/base.ts
index cebb289..7a39eec 100644
--- a/packages/vgrammar-wordcloud/src/base.ts
+++ b/packages/vgrammar-wordcloud/src/base.ts
@@ -139,6 +139,11 @@ export abstract class BaseLayout<T extends IBaseLayoutOptions> implements IProgr
     return this.options.progressiveTime > 0 && new Date().getTime() - this.escapeTime > this.options.progressiveTime;
   }
 
+  /* The layout ends when this number of words in a row find no place */
+  private getMaxFailCount() {
+    return Math.min(this.options.maxFailCount, this.originalData.length);
+  }
+
   progressiveRun() {
     if (this.options.progressiveStep > 0) {
       this.currentStepIndex = (this.currentStepIndex ?? -1) + 1;
@@ -152,7 +157,7 @@ export abstract class BaseLayout<T extends IBaseLayoutOptions> implements IProgr
 
       let curWordTryCount = 0;
       const maxSingleWordTryCount = this.options.maxSingleWordTryCount;
-      const maxFailCount = Math.min(this.options.maxFailCount, this.originalData.length);
+      const maxFailCount = this.getMaxFailCount();
 
       while (i < this.data.length && this.failCount < maxFailCount) {
         const drawn = this.layoutWord(i);
@@ -218,7 +223,13 @@ export abstract class BaseLayout<T extends IBaseLayoutOptions> implements IProgr
   }
 
   unfinished() {
-    return this.data && this.data.length && !isNil(this.progressiveIndex) && this.progressiveIndex < this.data.length;
+    return (
+      this.data &&
+      this.data.length &&
+      !isNil(this.progressiveIndex) &&
+      this.progressiveIndex < this.data.length &&
+      this.failCount < this.getMaxFailCount()
+    );
   }
 
   release() {
-- 
2.43.0


From 2408cbb4fba91f9e958df3f5e1e42917215c3863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:52 +0000
Subject: [PATCH 059/168] fix: a word cloud is enlarged and centred when all
 words are placed, within the board it has grown to

---
 .../vgrammar-wordcloud/src/cloud-layout.ts    | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-wordcloud/src/cloud-layout.ts b/packages/vgrammar-wordcloud/src/cloud-layout.ts
index 1ee78df..f9a02ba 100644
--- a/packages/vgrammar-wordcloud/src/cloud-layout.ts
+++ b/packages/vgrammar-wordcloud/src/cloud-layout.ts
@@ -226,6 +226,7 @@ export class CloudLayout extends BaseLayout<ICloudLayoutOptions> implements IPro
     this._board = new Uint32Array((this._size[0] >> 5) * this._size[1]).fill(0);
     // 已经绘制文字的最小包围盒
     this._bounds = null;
+    this._dy = 0;
 
     const n = words.length;
     const i = 0;
@@ -264,17 +265,30 @@ export class CloudLayout extends BaseLayout<ICloudLayoutOptions> implements IPro
 
     this.progressiveRun();
 
-    if (!this.options.clip && this.options.enlarge && this._bounds) {
-      this.shrinkBoard(this._bounds);
+    return this.result;
+  }
+
+  progressiveRun() {
+    const result = super.progressiveRun();
+
+    if (!this.unfinished()) {
+      this.adjustBoard();
     }
 
+    return result;
+  }
+
+  // 所有词语布局结束后，调整画板
+  private adjustBoard() {
     // 处理y方向偏移
     if (this._bounds && ['cardioid', 'triangle', 'triangle-upright'].includes(this.options.shape as string)) {
       const currentCenterY = (this._bounds[0].y + this._bounds[1].y) / 2;
-      this._dy = -(currentCenterY - this._originSize[1] / 2);
+      this._dy = -(currentCenterY - this._size[1] / 2);
     }
 
-    return this.result;
+    if (!this.options.clip && this.options.enlarge && this._bounds) {
+      this.shrinkBoard(this._bounds);
+    }
   }
 
   formatTagItem(words: TagOutputItem[]) {
-- 
2.43.0


From 294ee87cc0dfc580849e31ea864848ed9903dcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:52 +0000
Subject: [PATCH 060/168] fix: laying out words in a region one pixel wide or
 high comes to an end

---
 packages/vgrammar-wordcloud-shape/src/segmentation.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-wordcloud-shape/src/segmentation.ts b/packages/vgrammar-wordcloud-shape/src/segmentation.ts
index 3591043..d0b54bc 100644
--- a/packages/vgrammar-wordcloud-shape/src/segmentation.ts
+++ b/packages/vgrammar-wordcloud-shape/src/segmentation.ts
@@ -152,7 +152,7 @@ export function segmentation(segmentationInput: SegmentationInputType) {
       Math.sqrt((x - xMax) ** 2 + (y - yMin) ** 2)
     );
 
-    ratios[label] = (xMax - xMin) / (yMax - yMin);
+    ratios[label] = (xMax - xMin + 1) / (yMax - yMin + 1);
   }
 
   const regions = Object.keys(centers).map((key: any) => ({
-- 
2.43.0


From 03549e6eb8512dcc0bf067f5c7388f460d25f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:52 +0000
Subject: [PATCH 061/168] fix: words are no longer taken for placed when the
 layout of a shape word cloud starts over

---
 packages/vgrammar-wordcloud-shape/src/wordle.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/vgrammar-wordcloud-shape/src/wordle.ts b/packages/vgrammar-wordcloud-shape/src/wordle.ts
index 9f6ab7c..9eeb91a 100644
--- a/packages/vgrammar-wordcloud-shape/src/wordle.ts
+++ b/packages/vgrammar-wordcloud-shape/src/wordle.ts
@@ -197,6 +197,7 @@ export function layoutGlobalShrink(
         // 缩小字号
         globalShinkFactor = globalShinkFactor * fontFactor;
         words.forEach(word => {
+          word.hasPlaced = false;
           word.hasText = false;
           word.sprite = null;
           word.fontSize = word.fontSize * fontFactor; // 这里因为存在字号缩小-还原逻辑，因此不加最小字号限制
@@ -209,6 +210,7 @@ export function layoutGlobalShrink(
         break;
       } else if (!word.skip && word.datum[Symbol.for('vGrammar_id')] === id) {
         words.forEach(word => {
+          word.hasPlaced = false;
           word.hasText = false;
           word.sprite = null;
           word.fontSize = word.fontSize / globalShinkFactor;
@@ -326,6 +328,7 @@ export function layoutSelfEnlarge(
 
           // 增大字号
           words.forEach(word => {
+            word.hasPlaced = false;
             word.hasText = false;
             word.sprite = null;
             word.fontSize = word.fontSize * fontFactor; // 这里因为存在字号缩小-还原逻辑，因此不加最小字号限制
@@ -342,6 +345,7 @@ export function layoutSelfEnlarge(
       } else if (word.weight >= weightStd && globalEnlargeFactor > 1) {
         // 之前重点词完全布局，此次重点词未完成布局，回退字号
         words.forEach(word => {
+          word.hasPlaced = false;
           word.hasText = false;
           word.sprite = null;
           word.fontSize = word.fontSize / fontFactor;
@@ -360,6 +364,9 @@ export function layoutSelfEnlarge(
       } else if (word.weight >= weightStd) {
         // 初次未完成布局，使用ensureMapping算法
         // console.log('use layoutGlobalShrink')
+        words.forEach(word => {
+          word.hasPlaced = false;
+        });
         return layoutGlobalShrink(words, layoutConfig, segmentationOutput);
       }
     }
-- 
2.43.0


From 0f8995c2ea43f66e8a7b632c47a9c187ee917ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:53 +0000
Subject: [PATCH 062/168] fix: a brush interaction can be removed

---
 packages/vgrammar-core/src/interactions/brush-base.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-base.ts b/packages/vgrammar-core/src/interactions/brush-base.ts
index 6f7191b..a412fd4 100644
--- a/packages/vgrammar-core/src/interactions/brush-base.ts
+++ b/packages/vgrammar-core/src/interactions/brush-base.ts
@@ -186,8 +186,9 @@ export abstract class BrushBase<T extends BrushOptions> extends BaseInteraction<
     const stage = this.view.renderer.stage();
 
     if (this._brushComp && stage) {
-      stage.defaultLayer.removeChild(this._brushComp as any);
+      // the listeners are bound on the stage, so release them before the component is removed from it
       this._brushComp.releaseBrushEvents();
+      stage.defaultLayer.removeChild(this._brushComp as any);
       this._brushComp.release();
       this._brushComp = null;
     }
-- 
2.43.0


From 81db83f9fe324e9f147737b1221982ec28c742cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:50 +0000
Subject: [PATCH 063/168] fix: scales and coordinates of a specification are
 created once, a customized grammar is recorded once

---
 packages/vgrammar-core/src/view/View.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 6c849b1..3881df4 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -388,9 +388,9 @@ export default class View extends EventEmitter implements IView {
     const grammar = Factory.createGrammar(type, this, spec?.type);
 
     if (grammar) {
-      grammar.parse(spec);
       this.grammars.record(grammar);
       this._dataflow.add(grammar);
+      grammar.parse(spec);
       return grammar;
     }
   }
@@ -510,6 +510,10 @@ export default class View extends EventEmitter implements IView {
     const customizedGrammars = Factory.getGrammars();
 
     Object.keys(customizedGrammars).forEach(key => {
+      // scales and coordinates are already created above
+      if (key === 'scale' || key === 'coordinate') {
+        return;
+      }
       const { specKey } = customizedGrammars[key];
 
       if (spec[specKey] && spec[specKey].length) {
-- 
2.43.0


From 2953d485e003c46365393f82e0647c5b2a0b14ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 064/168] fix: the listeners declared by a specification are
 removed when it is replaced, pending calls are dropped on release,
 overlapping between events are independent

---
 packages/vgrammar-core/src/view/View.ts       | 14 ++-
 .../src/view/view-event-mixin.ts              | 89 ++++++++++---------
 2 files changed, 58 insertions(+), 45 deletions(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 3881df4..6717147 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -133,6 +133,8 @@ export default class View extends EventEmitter implements IView {
     source: any;
     handler: any;
   }>;
+  /** remove the event listeners declared by the current spec */
+  private _unbindSpecEvents: (() => void)[] = [];
 
   private _theme: ITheme;
 
@@ -531,7 +533,8 @@ export default class View extends EventEmitter implements IView {
 
     if (spec.events && spec.events.length) {
       spec.events.forEach(eventConfig => {
-        (this as any).event?.(eventConfig);
+        const unbind = (this as any).event?.(eventConfig);
+        unbind && this._unbindSpecEvents.push(unbind);
       });
     }
 
@@ -558,10 +561,16 @@ export default class View extends EventEmitter implements IView {
 
   updateSpec(spec: ViewSpec) {
     this.removeAllInteractions();
+    this.removeSpecEvents();
     this.removeAllGrammars();
     return this.parseSpec(spec);
   }
 
+  private removeSpecEvents() {
+    this._unbindSpecEvents.forEach(unbind => unbind());
+    this._unbindSpecEvents = [];
+  }
+
   private parseBuiltIn() {
     // 创建内置的 Signal
     builtInSignals(this._options, this._config, this.getCurrentTheme()).forEach(signalSpec => {
@@ -1412,7 +1421,10 @@ export default class View extends EventEmitter implements IView {
     this.removeAllListeners();
     this._eventListeners?.forEach((listener: any) => {
       listener.source.removeEventListener(listener.type, listener.handler);
+      // throttled or debounced calls should not run after the view is released
+      listener.handler.cancel?.();
     });
     this._eventListeners = null;
+    this._unbindSpecEvents = [];
   }
 }
diff --git a/packages/vgrammar-core/src/view/view-event-mixin.ts b/packages/vgrammar-core/src/view/view-event-mixin.ts
index e59fe81..4d86409 100644
--- a/packages/vgrammar-core/src/view/view-event-mixin.ts
+++ b/packages/vgrammar-core/src/view/view-event-mixin.ts
@@ -13,50 +13,48 @@ import View from './View';
 
 class ViewEventsMixin {
   private _eventConfig: IViewEventConfig;
-  private _eventCache: Record<string, () => void>;
   private _eventListeners: Array<{
     type: string;
     source: any;
     handler: any;
   }>;
 
+  /**
+   * @returns a function which removes everything bound by this specification
+   */
   event(eventSpec: EventSpec) {
     if ('between' in eventSpec) {
       const [starEvent, endEvent] = eventSpec.between;
-      // FIXME between需要生成唯一ID
-      const id = `${starEvent.type}-${eventSpec.type}-${endEvent.type}`;
-
+      let unbindEvent: any;
       let unbindEndEvent: any;
+      const unbindAfterStart = () => {
+        unbindEvent?.();
+        unbindEndEvent?.();
+        unbindEvent = null;
+        unbindEndEvent = null;
+      };
 
-      this.bindEvents(
+      const unbindStartEvent = this.bindEvents(
         Object.assign({}, starEvent, {
           callback: () => {
-            if (!this._eventCache) {
-              this._eventCache = {};
-            }
             // 中间的事件绑定
-            if (!this._eventCache[id]) {
-              const unbindEvent = this.bindEvents(eventSpec);
-              this._eventCache[id] = unbindEvent;
+            if (!unbindEvent) {
+              unbindEvent = this.bindEvents(eventSpec);
             }
             if (!unbindEndEvent) {
               // 结束的事件绑定
-              unbindEndEvent = this.bindEvents(
-                Object.assign({}, endEvent, {
-                  callback: () => {
-                    if (this._eventCache[id]) {
-                      this._eventCache[id]();
-                      this._eventCache[id] = null;
-                    }
-                  }
-                })
-              );
+              unbindEndEvent = this.bindEvents(Object.assign({}, endEvent, { callback: unbindAfterStart }));
             }
           }
         })
       );
+
+      return () => {
+        unbindStartEvent?.();
+        unbindAfterStart();
+      };
     } else if ('merge' in eventSpec) {
-      eventSpec.merge.forEach(entry => {
+      const unbinds = (eventSpec.merge as Array<string | BaseEventSpec>).map(entry => {
         const singleEvent: Partial<BaseEventSpec> = Object.assign({}, eventSpec);
 
         if (isString(entry)) {
@@ -65,11 +63,13 @@ class ViewEventsMixin {
           Object.assign(singleEvent, entry);
         }
         singleEvent.debounce = 50;
-        this.bindEvents(singleEvent as BaseEventSpec);
+        return this.bindEvents(singleEvent as BaseEventSpec);
       });
-    } else {
-      this.bindEvents(eventSpec);
+
+      return () => unbinds.forEach(unbind => unbind?.());
     }
+
+    return this.bindEvents(eventSpec);
   }
 
   // --- Event ---
@@ -153,35 +153,36 @@ class ViewEventsMixin {
       { throttle, debounce }
     );
 
+    let listener: any;
+
     if (source === EVENT_SOURCE_VIEW) {
       if (permit(this._eventConfig, EVENT_SOURCE_VIEW, type)) {
         // send traps errors, so use {trap: false} option
         (this as unknown as IView).addEventListener(type, send, NO_TRAP);
-
-        return () => {
-          (this as unknown as IView).removeEventListener(type, send);
-        };
+        listener = { type, source: this, handler: send };
       }
     } else if (source === EVENT_SOURCE_WINDOW) {
       vglobal.addEventListener(type, send);
-      this._eventListeners.push({
-        type: type,
-        source: vglobal,
-        handler: send
-      });
+      listener = { type, source: vglobal, handler: send };
+    }
 
-      return () => {
-        vglobal.removeEventListener(type, send);
+    if (!listener) {
+      return;
+    }
+    // listeners which are still bound when the view is released are removed then
+    this._eventListeners.push(listener);
 
-        const index = this._eventListeners.findIndex((entry: any) => {
-          return entry.type === type && entry.source === vglobal && entry.handler === send;
-        });
+    return () => {
+      listener.source.removeEventListener(type, send);
+      // a throttled or debounced call might be pending
+      (send as any).cancel?.();
 
-        if (index >= 0) {
-          this._eventListeners.splice(index, 1);
-        }
-      };
-    }
+      const index = this._eventListeners?.indexOf(listener) ?? -1;
+
+      if (index >= 0) {
+        this._eventListeners.splice(index, 1);
+      }
+    };
   }
 }
 
-- 
2.43.0


From 93b8f6cdf073f65882f967836819cf82bb8f7d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:10 +0000
Subject: [PATCH 065/168] fix: a removed interaction drops its pending
 throttled call, a removed brush is not notified of delayed operations

---
 .../vgrammar-core/src/interactions/base.ts    |  2 ++
 .../src/interactions/brush-base.ts            | 24 +++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/base.ts b/packages/vgrammar-core/src/interactions/base.ts
index c0cc387..87d8cce 100644
--- a/packages/vgrammar-core/src/interactions/base.ts
+++ b/packages/vgrammar-core/src/interactions/base.ts
@@ -78,6 +78,8 @@ export abstract class BaseInteraction<T extends IBaseInteractionOptions> {
         } else {
           evt.type !== 'none' && this.view.removeEventListener(evt.type, evt.handler);
         }
+        // a throttled or debounced handler might have a pending call
+        (evt.handler as any).cancel?.();
       }
     });
   }
diff --git a/packages/vgrammar-core/src/interactions/brush-base.ts b/packages/vgrammar-core/src/interactions/brush-base.ts
index a412fd4..dffd199 100644
--- a/packages/vgrammar-core/src/interactions/brush-base.ts
+++ b/packages/vgrammar-core/src/interactions/brush-base.ts
@@ -11,6 +11,16 @@ import {
 } from '@visactor/vutils';
 import { HOOK_EVENT } from '../graph/enums';
 
+const OPERATE_TYPES = [
+  IOperateType.brushClear,
+  IOperateType.moveEnd,
+  IOperateType.drawEnd,
+  IOperateType.drawStart,
+  IOperateType.moveStart,
+  IOperateType.drawing,
+  IOperateType.moving
+];
+
 export abstract class BrushBase<T extends BrushOptions> extends BaseInteraction<T> {
   options: T;
   protected _brushComp?: Brush;
@@ -163,13 +173,9 @@ export abstract class BrushBase<T extends BrushOptions> extends BaseInteraction<
       delayTime: this.options.delayTime
     });
 
-    this._brushComp.addEventListener(IOperateType.brushClear, this.handleBrushUpdate);
-    this._brushComp.addEventListener(IOperateType.moveEnd, this.handleBrushUpdate);
-    this._brushComp.addEventListener(IOperateType.drawEnd, this.handleBrushUpdate);
-    this._brushComp.addEventListener(IOperateType.drawStart, this.handleBrushUpdate);
-    this._brushComp.addEventListener(IOperateType.moveStart, this.handleBrushUpdate);
-    this._brushComp.addEventListener(IOperateType.drawing, this.handleBrushUpdate);
-    this._brushComp.addEventListener(IOperateType.moving, this.handleBrushUpdate);
+    OPERATE_TYPES.forEach(type => {
+      this._brushComp.addEventListener(type, this.handleBrushUpdate);
+    });
     stage.defaultLayer.appendChild(this._brushComp as any);
   };
 
@@ -188,6 +194,10 @@ export abstract class BrushBase<T extends BrushOptions> extends BaseInteraction<
     if (this._brushComp && stage) {
       // the listeners are bound on the stage, so release them before the component is removed from it
       this._brushComp.releaseBrushEvents();
+      // a delayed operation of the component might still be pending
+      OPERATE_TYPES.forEach(type => {
+        this._brushComp.removeEventListener(type, this.handleBrushUpdate);
+      });
       stage.defaultLayer.removeChild(this._brushComp as any);
       this._brushComp.release();
       this._brushComp = null;
-- 
2.43.0


From fff840bbb543430fd8efc6cb30fb947f948283db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 066/168] fix: components do not share their rejoin key through
 the data they are joined with

---
 packages/vgrammar-core/src/view/component.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/component.ts b/packages/vgrammar-core/src/view/component.ts
index 36b687b..1116f63 100644
--- a/packages/vgrammar-core/src/view/component.ts
+++ b/packages/vgrammar-core/src/view/component.ts
@@ -76,9 +76,11 @@ export class Component extends Mark implements IComponent {
     this.spec.key = DefaultKey;
 
     if (data) {
-      (data as any)[DefaultKey] = this._componentDatum[DefaultKey];
+      // the data might be shared with other components, so never write the key into it
+      const componentDatum: any = data.slice();
+      componentDatum[DefaultKey] = this._componentDatum[DefaultKey];
 
-      this._componentDatum = data;
+      this._componentDatum = componentDatum;
     } else {
       this._componentDatum = { [DefaultKey]: this._componentDatum[DefaultKey] };
     }
-- 
2.43.0


From 23664e71c71e3682e6661e3f0a76c49a741b857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 067/168] fix: a reused mark keeps the coordinate of its own
 specification

---
 packages/vgrammar-core/src/view/mark.ts | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 70835c0..6ee0f42 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -172,7 +172,6 @@ export class Mark extends GrammarBase implements IMark {
     }
     const mark = grammar as Mark;
     this.markType = mark.markType;
-    this.coord = mark.coord;
 
     this.elementMap = mark.elementMap;
     this.elements = mark.elements;
-- 
2.43.0


From abde50162148cce1318ebea347cfce3aebc7d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 068/168] fix: a delayed handler of an event on a released
 element threw

---
 packages/vgrammar-core/src/parse/event.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/parse/event.ts b/packages/vgrammar-core/src/parse/event.ts
index 2b144a2..a0b84d2 100644
--- a/packages/vgrammar-core/src/parse/event.ts
+++ b/packages/vgrammar-core/src/parse/event.ts
@@ -12,20 +12,21 @@ import { EVENT_SOURCE_VIEW, EVENT_SOURCE_WINDOW, ID_PREFIX, NAME_PREFIX } from '
 
 export const generateFilterByMark = (evtSpec: Partial<ParsedViewEventSpec | ParsedWindowEventSpec>) => {
   if (!isNil(evtSpec.markId)) {
+    // a delayed event might refer to an element which has been released since
     return (el: IElement) => {
-      return el && el.mark.id() === evtSpec.markId;
+      return el && el.mark && el.mark.id() === evtSpec.markId;
     };
   }
 
   if (!isNil(evtSpec.markName)) {
     return (el: IElement) => {
-      return el && el.mark.name() === evtSpec.markName;
+      return el && el.mark && el.mark.name() === evtSpec.markName;
     };
   }
 
   if (!isNil(evtSpec.markType)) {
     return (el: IElement) => {
-      return el && el.mark.markType === evtSpec.markType;
+      return el && el.mark && el.mark.markType === evtSpec.markType;
     };
   }
 
-- 
2.43.0


From 65db636d04b7d0c41b1190d2a051a2bc5618251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 069/168] fix: the graphics of a mark were reused for a
 component or glyph of another kind

---
 packages/vgrammar-core/src/view/View.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 6717147..461ce54 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -935,7 +935,11 @@ export default class View extends EventEmitter implements IView {
     );
     diffedMark.update.forEach(diff => {
       const matched =
-        diff.prev.length === 1 && diff.next.length === 1 && diff.prev[0].markType === diff.next[0].markType;
+        diff.prev.length === 1 &&
+        diff.next.length === 1 &&
+        diff.prev[0].markType === diff.next[0].markType &&
+        (diff.prev[0] as IComponent).componentType === (diff.next[0] as IComponent).componentType &&
+        (diff.prev[0] as IGlyphMark).glyphType === (diff.next[0] as IGlyphMark).glyphType;
       const enableMarkMorphConfig =
         diff.prev.every(mark => mark.getMorphConfig().morph) && diff.next.every(mark => mark.getMorphConfig().morph);
       if ((this as any).morph && ((runningConfig.morph && enableMarkMorphConfig) || runningConfig.morphAll)) {
-- 
2.43.0


From b550a604b362e41eb816cfdca4158a97558d5d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 070/168] fix: graphics of marks were drawn in another order
 after a mark before them was removed

---
 packages/vgrammar-core/src/view/mark.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 6ee0f42..622dfbf 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -650,6 +650,10 @@ export class Mark extends GrammarBase implements IMark {
       }
       this.graphicParent = this.graphicItem;
       if (groupGraphicItem && (this.graphicIndex !== markIndex || this.graphicItem.parent !== groupGraphicItem)) {
+        if (this.graphicItem.parent === groupGraphicItem) {
+          // a graphic cannot be inserted before itself, it has to leave its former position first
+          groupGraphicItem.removeChild(this.graphicItem as any);
+        }
         groupGraphicItem.insertIntoKeepIdx(this.graphicItem, markIndex);
       }
     } else {
-- 
2.43.0


From 59ac3668e297746d9341ddbbff423c2080aafaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 071/168] fix: merged events ignored the debounce and throttle
 of their specification

---
 packages/vgrammar-core/src/view/view-event-mixin.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/view-event-mixin.ts b/packages/vgrammar-core/src/view/view-event-mixin.ts
index 4d86409..2b76a1c 100644
--- a/packages/vgrammar-core/src/view/view-event-mixin.ts
+++ b/packages/vgrammar-core/src/view/view-event-mixin.ts
@@ -62,7 +62,9 @@ class ViewEventsMixin {
         } else if (isObject(entry)) {
           Object.assign(singleEvent, entry);
         }
-        singleEvent.debounce = 50;
+        if (!singleEvent.debounce && !singleEvent.throttle) {
+          singleEvent.debounce = 50;
+        }
         return this.bindEvents(singleEvent as BaseEventSpec);
       });
 
-- 
2.43.0


From ef0ff6d82e8a981059886929c7457001ccbcbc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 072/168] fix: events which do not match a consuming listener
 were consumed too

---
 .../vgrammar-core/src/view/view-event-mixin.ts     | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/vgrammar-core/src/view/view-event-mixin.ts b/packages/vgrammar-core/src/view/view-event-mixin.ts
index 2b76a1c..14d579e 100644
--- a/packages/vgrammar-core/src/view/view-event-mixin.ts
+++ b/packages/vgrammar-core/src/view/view-event-mixin.ts
@@ -108,17 +108,19 @@ class ViewEventsMixin {
 
     const send = parseHandler(
       (evt?: any) => {
-        const needPreventDefault =
-          (source === EVENT_SOURCE_VIEW && prevent(this._eventConfig, type)) ||
-          (consume && (evt.cancelable === undefined || evt.cancelable));
-
         if (source === EVENT_SOURCE_WINDOW) {
           evt = getExtendedEvents(this as unknown as IView, evt, type, EVENT_SOURCE_WINDOW);
         }
 
         let hasCommitted = false;
+        const isMatched = (!filter || filter(evt)) && (!markFilter || markFilter(evt.element));
+        // events which do not match are not consumed
+        const needConsume = consume && isMatched;
+        const needPreventDefault =
+          (source === EVENT_SOURCE_VIEW && prevent(this._eventConfig, type)) ||
+          (needConsume && (evt.cancelable === undefined || evt.cancelable));
 
-        if ((!filter || filter(evt)) && (!markFilter || markFilter(evt.element)) && validateSignals.length) {
+        if (isMatched && validateSignals.length) {
           const params = refs.reduce((params, ref) => {
             params[ref.id()] = ref.output();
             return params;
@@ -144,7 +146,7 @@ class ViewEventsMixin {
           evt.preventDefault();
         }
 
-        if (consume) {
+        if (needConsume) {
           evt.stopPropagation();
         }
 
-- 
2.43.0


From 8bad664035a1f76e7cf028c4f91044700c66d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 073/168] fix: the filter of a listener was called for events
 on elements its selector does not match

---
 packages/vgrammar-core/src/view/view-event-mixin.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/view-event-mixin.ts b/packages/vgrammar-core/src/view/view-event-mixin.ts
index 14d579e..398033c 100644
--- a/packages/vgrammar-core/src/view/view-event-mixin.ts
+++ b/packages/vgrammar-core/src/view/view-event-mixin.ts
@@ -113,7 +113,7 @@ class ViewEventsMixin {
         }
 
         let hasCommitted = false;
-        const isMatched = (!filter || filter(evt)) && (!markFilter || markFilter(evt.element));
+        const isMatched = (!markFilter || markFilter(evt.element)) && (!filter || filter(evt));
         // events which do not match are not consumed
         const needConsume = consume && isMatched;
         const needPreventDefault =
-- 
2.43.0


From 9e15c02c08d35b369854250a1f3764f865056d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 074/168] fix: a selection which times out was reset at once
 when several reset conditions are given

---
 packages/vgrammar-core/src/interactions/element-select.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/element-select.ts b/packages/vgrammar-core/src/interactions/element-select.ts
index e04afea..a9094f4 100644
--- a/packages/vgrammar-core/src/interactions/element-select.ts
+++ b/packages/vgrammar-core/src/interactions/element-select.ts
@@ -1,4 +1,4 @@
-import { isArray } from '@visactor/vutils';
+import { array, isArray, isNumber } from '@visactor/vutils';
 import { InteractionStateEnum } from '../graph/enums';
 import type {
   ElementSelectOptions,
@@ -124,7 +124,7 @@ export class ElementSelect extends BaseInteraction<ElementSelectOptions> {
         if (this._resetType.includes('timeout')) {
           this._timer = setTimeout(() => {
             this.resetAll();
-          }, this.options.triggerOff as number) as unknown as number;
+          }, array(this.options.triggerOff).find(isNumber) as number) as unknown as number;
         }
       }
     } else if (this._resetType.includes('view') && this._statedElements && this._statedElements.length) {
-- 
2.43.0


From 2fa288ce11b5b5c11e4fc3444783ed738ca095c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 075/168] fix: selecting by graphic name threw when the event
 is not on an element

---
 .../src/interactions/element-select-by-graphic-name.ts       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/element-select-by-graphic-name.ts b/packages/vgrammar-core/src/interactions/element-select-by-graphic-name.ts
index 5d37f74..dd359e1 100644
--- a/packages/vgrammar-core/src/interactions/element-select-by-graphic-name.ts
+++ b/packages/vgrammar-core/src/interactions/element-select-by-graphic-name.ts
@@ -6,6 +6,11 @@ export class ElementSelectByGraphicName extends ElementSelect {
   type: string = ElementSelectByGraphicName.type;
 
   start(element: InteractionEvent['element']) {
+    if (!element) {
+      super.start(element);
+      return;
+    }
+
     const name = element.getGraphicItem()?.name;
     if (name) {
       this._marks.forEach(mark => {
-- 
2.43.0


From e0ff86b204ced90278d22eb3c6a58fa2b412cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 076/168] fix: a mark matched by several selectors was handled
 several times by interactions

---
 packages/vgrammar-core/src/view/View.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 461ce54..f622753 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -249,7 +249,8 @@ export default class View extends EventEmitter implements IView {
       }
     });
 
-    return res;
+    // a mark might be matched by several selectors
+    return res.filter((mark, index) => res.indexOf(mark) === index);
   }
 
   // --- Grammar ---
-- 
2.43.0


From 623b48f370e4d91b71a0d4b61bc6b4bab48d2842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 077/168] fix: elements under a brush too small to stay were
 left active when the brush was cleared

---
 packages/vgrammar-core/src/interactions/brush-active.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-active.ts b/packages/vgrammar-core/src/interactions/brush-active.ts
index f385b77..37eb0dc 100644
--- a/packages/vgrammar-core/src/interactions/brush-active.ts
+++ b/packages/vgrammar-core/src/interactions/brush-active.ts
@@ -3,6 +3,7 @@ import { InteractionStateEnum } from '../graph/enums';
 import type { BrushActiveOptions, IElement, IGlyphElement, IView } from '../types';
 import { BrushBase } from './brush-base';
 import { type IBounds } from '@visactor/vutils';
+import { IOperateType } from '@visactor/vrender-components';
 
 export class BrushActive extends BrushBase<BrushActiveOptions> {
   static type: string = 'brush-active';
@@ -31,7 +32,10 @@ export class BrushActive extends BrushBase<BrushActiveOptions> {
 
     this._marks.forEach(mark => {
       mark.elements.forEach(el => {
-        const isActive = this.isBrushContainGraphicItem(event.detail.operateMask, el.getGraphicItem());
+        // the mask of a cleared brush is not shown any more
+        const isActive =
+          event.type !== IOperateType.brushClear &&
+          this.isBrushContainGraphicItem(event.detail.operateMask, el.getGraphicItem());
 
         if (isActive) {
           elements.push(el);
-- 
2.43.0


From b7592f916ab27b176bdc511812385fc7c407b5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 078/168] fix: type error in the parsing of the reset
 conditions of selections

---
 packages/vgrammar-core/src/interactions/element-select.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/element-select.ts b/packages/vgrammar-core/src/interactions/element-select.ts
index a9094f4..a104711 100644
--- a/packages/vgrammar-core/src/interactions/element-select.ts
+++ b/packages/vgrammar-core/src/interactions/element-select.ts
@@ -124,7 +124,7 @@ export class ElementSelect extends BaseInteraction<ElementSelectOptions> {
         if (this._resetType.includes('timeout')) {
           this._timer = setTimeout(() => {
             this.resetAll();
-          }, array(this.options.triggerOff).find(isNumber) as number) as unknown as number;
+          }, array(this.options.triggerOff).find(trigger => isNumber(trigger)) as number) as unknown as number;
         }
       }
     } else if (this._resetType.includes('view') && this._statedElements && this._statedElements.length) {
-- 
2.43.0


From 253c4e13b828adb3dfa2f677b3d8180f013e90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 079/168] fix: horizontal interval growing animated another
 channel, and threw without coordinate

---
 .../src/graph/animation/animation/grow-interval.ts   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animation/grow-interval.ts b/packages/vgrammar-core/src/graph/animation/animation/grow-interval.ts
index e56d80a..ee1e452 100644
--- a/packages/vgrammar-core/src/graph/animation/animation/grow-interval.ts
+++ b/packages/vgrammar-core/src/graph/animation/animation/grow-interval.ts
@@ -22,7 +22,7 @@ function growIntervalInIndividual(
     }
     return {
       from: { x: x, x1: x },
-      to: { x: x, y1: x1 }
+      to: { x: x, x1: x1 }
     };
   }
   const y = attrs?.y;
@@ -65,7 +65,7 @@ function growIntervalInOverall(
     }
     return {
       from: { x: overallValue, x1: overallValue },
-      to: { x: x, y1: x1 }
+      to: { x: x, x1: x1 }
     };
   }
 
@@ -97,8 +97,8 @@ export const growIntervalIn: TypeAnimation<IElement> = (
   animationParameters: IAnimationParameters
 ) => {
   const coord = element.mark?.coord?.output();
-  const isTransposed = coord.isTransposed();
-  const isPolar = coord.type === 'polar';
+  const isTransposed = coord?.isTransposed() ?? false;
+  const isPolar = coord?.type === 'polar';
   const newOptions: IGrowCartesianAnimationOptions = {
     orient: 'negative',
     direction: isTransposed && !isPolar ? 'x' : 'y'
@@ -204,8 +204,8 @@ export const growIntervalOut: TypeAnimation<IElement> = (
   animationParameters: IAnimationParameters
 ) => {
   const coord = element.mark?.coord?.output();
-  const isTransposed = coord.isTransposed();
-  const isPolar = coord.type === 'polar';
+  const isTransposed = coord?.isTransposed() ?? false;
+  const isPolar = coord?.type === 'polar';
   const newOptions: IGrowCartesianAnimationOptions = {
     orient: 'negative',
     direction: isTransposed && !isPolar ? 'x' : 'y'
-- 
2.43.0


From f871c6bbe4343648e95cfd2cbdde9802da05c83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 080/168] fix: growing points and clipping started from values
 of an interrupted animation, and gave points a second side

---
 .../src/graph/animation/animation/clip.ts     |  4 +-
 .../graph/animation/animation/grow-points.ts  | 38 +++++++++++--------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animation/clip.ts b/packages/vgrammar-core/src/graph/animation/animation/clip.ts
index 5faab61..d6f151a 100644
--- a/packages/vgrammar-core/src/graph/animation/animation/clip.ts
+++ b/packages/vgrammar-core/src/graph/animation/animation/clip.ts
@@ -6,8 +6,8 @@ export const clipIn: TypeAnimation<IElement> = (
   options: IClipAnimationOptions,
   animationParameters: IAnimationParameters
 ) => {
-  const clipDimension = element.getGraphicAttribute('clipRangeByDimension', false);
-  const clipRange = element.getGraphicAttribute('clipRange', false) ?? 1;
+  const clipDimension = element.getFinalAnimationAttribute('clipRangeByDimension');
+  const clipRange = element.getFinalAnimationAttribute('clipRange') ?? 1;
   if (options && options.clipDimension) {
     return {
       from: { clipRange: 0, clipRangeByDimension: options.clipDimension },
diff --git a/packages/vgrammar-core/src/graph/animation/animation/grow-points.ts b/packages/vgrammar-core/src/graph/animation/animation/grow-points.ts
index 7390996..7bbbe58 100644
--- a/packages/vgrammar-core/src/graph/animation/animation/grow-points.ts
+++ b/packages/vgrammar-core/src/graph/animation/animation/grow-points.ts
@@ -1,6 +1,6 @@
 import type { IPointLike } from '@visactor/vutils';
 // eslint-disable-next-line no-duplicate-imports
-import { isValidNumber } from '@visactor/vutils';
+import { isNil, isValidNumber } from '@visactor/vutils';
 import type {
   IElement,
   IGrowPointsOverallAnimationOptions,
@@ -14,7 +14,7 @@ const getCenterPoints = (
   options: IGrowPointsOverallAnimationOptions,
   animationParameters: IAnimationParameters
 ) => {
-  const points: IPointLike[] = element.getGraphicAttribute('points', false);
+  const points: IPointLike[] = element.getFinalAnimationAttribute('points');
   const center: IPointLike = { x: 0, y: 0 };
   points.forEach(point => {
     center.x += point.x;
@@ -32,12 +32,18 @@ const getCenterPoints = (
     }
   }
 
-  if (element.mark.markType === 'area') {
-    center.x1 = center.x;
-    center.y1 = center.y;
-  }
+  return points.map(point => {
+    const centerPoint = Object.assign({}, point, center);
 
-  return points.map(point => Object.assign({}, point, center));
+    // the other side of an area
+    if (!isNil(point.x1)) {
+      centerPoint.x1 = center.x;
+    }
+    if (!isNil(point.y1)) {
+      centerPoint.y1 = center.y;
+    }
+    return centerPoint;
+  });
 };
 
 export const growPointsIn: TypeAnimation<IElement> = (
@@ -47,7 +53,7 @@ export const growPointsIn: TypeAnimation<IElement> = (
 ) => {
   return {
     from: { points: getCenterPoints(element, options, animationParameters) },
-    to: { points: element.getGraphicAttribute('points', false) }
+    to: { points: element.getFinalAnimationAttribute('points') }
   };
 };
 
@@ -69,7 +75,7 @@ const changePointsX = (
   options: IGrowPointsAnimationOptions,
   animationParameters: IAnimationParameters
 ) => {
-  const points = element.getGraphicAttribute('points', false) ?? [];
+  const points = element.getFinalAnimationAttribute('points') ?? [];
   return points.map((point: IPointLike) => {
     if (options && options.orient === 'negative') {
       let groupRight = animationParameters.width;
@@ -84,7 +90,7 @@ const changePointsX = (
         ...point,
         x: groupRight,
         y: point.y,
-        x1: groupRight,
+        x1: isNil(point.x1) ? undefined : groupRight,
         y1: point.y1,
         defined: point.defined !== false
       } as IPointLike;
@@ -93,7 +99,7 @@ const changePointsX = (
       ...point,
       x: 0,
       y: point.y,
-      x1: 0,
+      x1: isNil(point.x1) ? undefined : 0,
       y1: point.y1,
       defined: point.defined !== false
     } as IPointLike;
@@ -107,7 +113,7 @@ export const growPointsXIn: TypeAnimation<IElement> = (
 ) => {
   return {
     from: { points: changePointsX(element, options, animationParameters) },
-    to: { points: element.getGraphicAttribute('points', false) }
+    to: { points: element.getFinalAnimationAttribute('points') }
   };
 };
 
@@ -129,7 +135,7 @@ const changePointsY = (
   options: IGrowPointsAnimationOptions,
   animationParameters: IAnimationParameters
 ) => {
-  const points = element.getGraphicAttribute('points', false) ?? [];
+  const points = element.getFinalAnimationAttribute('points') ?? [];
   return points.map((point: IPointLike) => {
     if (options && options.orient === 'negative') {
       let groupBottom = animationParameters.height;
@@ -145,7 +151,7 @@ const changePointsY = (
         x: point.x,
         y: groupBottom,
         x1: point.x1,
-        y1: groupBottom,
+        y1: isNil(point.y1) ? undefined : groupBottom,
         defined: point.defined !== false
       } as IPointLike;
     }
@@ -154,7 +160,7 @@ const changePointsY = (
       x: point.x,
       y: 0,
       x1: point.x1,
-      y1: 0,
+      y1: isNil(point.y1) ? undefined : 0,
       defined: point.defined !== false
     } as IPointLike;
   });
@@ -167,7 +173,7 @@ export const growPointsYIn: TypeAnimation<IElement> = (
 ) => {
   return {
     from: { points: changePointsY(element, options, animationParameters) },
-    to: { points: element.getGraphicAttribute('points', false) }
+    to: { points: element.getFinalAnimationAttribute('points') }
   };
 };
 
-- 
2.43.0


From 37e3281b0dc88d221da6fc607266fab99f8d5943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 081/168] fix: elements of custom exit states were kept, and
 interrupted, replaced or re-encoded animations left intermediate values and
 unbalanced notifications

---
 .../src/graph/animation/animate.ts            |  53 ++++++----
 .../src/graph/animation/animator.ts           | 100 +++++++++++++++---
 .../src/graph/animation/attribute.ts          |  20 +++-
 packages/vgrammar-core/src/graph/element.ts   |  17 ++-
 packages/vgrammar-core/src/types/animate.ts   |   6 ++
 packages/vgrammar-core/src/types/element.ts   |   2 +
 packages/vgrammar-core/src/view/mark.ts       |   2 +-
 7 files changed, 160 insertions(+), 40 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animate.ts b/packages/vgrammar-core/src/graph/animation/animate.ts
index dbab67a..9398237 100644
--- a/packages/vgrammar-core/src/graph/animation/animate.ts
+++ b/packages/vgrammar-core/src/graph/animation/animate.ts
@@ -1,4 +1,4 @@
-import { array, isNil, isNumber } from '@visactor/vutils';
+import { array, isNil, isNumber, pickWithout } from '@visactor/vutils';
 import type {
   IAnimate,
   IAnimationConfig,
@@ -35,7 +35,7 @@ export class Animate implements IAnimate {
       count: { [state: string]: number };
     }
   > = new WeakMap();
-  private timelineCount: Record<string, number> = {};
+  private timelineCount: Map<IAnimationConfig, number> = new Map();
   // record: IAnimationRecord;
 
   constructor(mark: IMark, config: Record<string, IAnimationConfig | IAnimationConfig[]>) {
@@ -73,9 +73,10 @@ export class Animate implements IAnimate {
       }
       // clear previous animation when animation state changed
       const prevElementState = this.elementRecorder.get(element)?.prevState;
+      const elementState = this.getAnimationState(element);
       const needStopAnimation = this.configs.some(config => {
         return (
-          prevElementState !== element.diffState &&
+          prevElementState !== elementState &&
           config.state === prevElementState &&
           config.timeline.controlOptions.stopWhenStateChange
         );
@@ -84,7 +85,7 @@ export class Animate implements IAnimate {
         this.clearElementAnimation(element, false);
       }
       // clear animations for exit elements
-      else if (element.diffState === DiffState.exit && prevElementState !== element.diffState) {
+      else if (element.diffState === DiffState.exit && prevElementState !== elementState) {
         this.clearElementAnimation(element, false);
       }
     });
@@ -196,7 +197,7 @@ export class Animate implements IAnimate {
 
   isElementAnimating(element: IElement) {
     const stateAnimationCounts = this.elementRecorder.get(element)?.count;
-    return isNil(stateAnimationCounts) || Object.values(stateAnimationCounts).every(count => count === 0);
+    return !isNil(stateAnimationCounts) && Object.values(stateAnimationCounts).some(count => count > 0);
   }
 
   getAnimatorCount() {
@@ -280,10 +281,6 @@ export class Animate implements IAnimate {
     });
 
     if (animatedElements.length) {
-      if (isNil(this.timelineCount[config.id])) {
-        this.timelineCount[config.id] = 0;
-      }
-
       if (config.timeline.sort) {
         animatedElements.sort((elementA, elementB) => {
           return config.timeline.sort(elementA.getDatum(), elementB.getDatum(), elementA, elementB, parameters);
@@ -301,10 +298,12 @@ export class Animate implements IAnimate {
         elementIndex: 0
       };
       // clear animator with same state
+      const replacedAttributes = new Map<IElement, Record<string, any>>();
       animatedElements.forEach(element => {
         (this.animators.get(config.state) ?? [])
           .filter(animator => animator.element === element && animator.animationOptions.id === config.id)
           .forEach(animator => {
+            replacedAttributes.set(element, animator.getEndAttributes());
             animator.stop(null, false);
             this.handleAnimatorEnd(animator, false);
           });
@@ -321,7 +320,14 @@ export class Animate implements IAnimate {
           animatedElements.length,
           mergedParameters
         );
-        animators.push(this.animateElement(config, animationUnit, element, animationParameters, mergedParameters));
+        const animator = this.animateElement(config, animationUnit, element, animationParameters, mergedParameters);
+        // attributes which are not animated any more should not stay at their intermediate values
+        const endAttributes = animator?.getEndAttributes() ?? {};
+        const restAttributes = pickWithout(replacedAttributes.get(element) ?? {}, Object.keys(endAttributes));
+        if (Object.keys(restAttributes).length) {
+          element.getGraphicItem()?.setAttributes(restAttributes);
+        }
+        animators.push(animator);
       });
     }
     return animators;
@@ -347,9 +353,10 @@ export class Animate implements IAnimate {
       element.isReserved = true;
     }
 
-    const isFirstAnimator = this.timelineCount[config.id] === 0;
+    const timelineCount = this.timelineCount.get(config.originConfig) ?? 0;
+    const isFirstAnimator = timelineCount === 0;
 
-    this.timelineCount[config.id] += 1;
+    this.timelineCount.set(config.originConfig, timelineCount + 1);
     const elementRecord = this.elementRecorder.get(element) ?? { prevState: config.state, count: {} };
     elementRecord.prevState = config.state;
     elementRecord.count[config.state] = (elementRecord.count[config.state] ?? 0) + 1;
@@ -436,7 +443,7 @@ export class Animate implements IAnimate {
       animators.forEach(animator => {
         if (animator.element === element) {
           // if previous animation state is exit, modify graphic item channel to start
-          if (animator.animationOptions.state === DiffState.exit) {
+          if (animator.isExitAnimator) {
             animator.stop('start', false);
           } else {
             animator.stop('end', false);
@@ -446,6 +453,8 @@ export class Animate implements IAnimate {
       });
     });
     this.elementRecorder.delete(element);
+    // another exit animation can be executed, or the element can be removed
+    element.isReserved = false;
   }
 
   private clearAllElements() {
@@ -498,24 +507,22 @@ export class Animate implements IAnimate {
     if (this.animators.get(animationState).length === 0) {
       this.animators.delete(animationState);
     }
-    this.timelineCount[animationOptions.id] -= 1;
-    const isLastAnimator = this.timelineCount[animationOptions.id] === 0;
+    const timelineCount = this.timelineCount.get(animationOptions.originConfig) - 1;
+    const isLastAnimator = timelineCount === 0;
 
-    const originAnimationConfig = isImmediateAnimation
-      ? this.immediateConfigs.find(config => config.id === animationOptions.id).originConfig
-      : this.configs.find(config => config.id === animationOptions.id).originConfig;
+    this.timelineCount.set(animationOptions.originConfig, timelineCount);
     if (isLastAnimator) {
-      delete this.timelineCount[animationOptions.id];
+      this.timelineCount.delete(animationOptions.originConfig);
       // delete config when immediate executed animation is finished
       if (isImmediateAnimation) {
-        this.immediateConfigs = this.immediateConfigs.filter(config => config.id !== animationOptions.id);
+        this.immediateConfigs = this.immediateConfigs.filter(config => config !== animationOptions);
       }
     }
 
     if (clearElement) {
-      if (Object.keys(this.timelineCount).length === 0) {
+      if (this.timelineCount.size === 0) {
         this.clearAllElements();
-      } else if (animationState === DiffState.exit && stateAnimationCounts[DiffState.exit] === 0) {
+      } else if (animator.isExitAnimator && !this.isElementAnimating(element)) {
         // if all exit animations are finished
         this.clearElement(element);
       }
@@ -525,7 +532,7 @@ export class Animate implements IAnimate {
     const animationEvent: AnimationEvent = {
       mark: this.mark,
       animationState,
-      animationConfig: originAnimationConfig
+      animationConfig: animationOptions.originConfig
     };
     if (isLastAnimator) {
       this.mark.emit(HOOK_EVENT.ANIMATION_END, animationEvent);
diff --git a/packages/vgrammar-core/src/graph/animation/animator.ts b/packages/vgrammar-core/src/graph/animation/animator.ts
index a174e17..6e6d5c4 100644
--- a/packages/vgrammar-core/src/graph/animation/animator.ts
+++ b/packages/vgrammar-core/src/graph/animation/animator.ts
@@ -1,4 +1,4 @@
-import { isNil, isValidNumber } from '@visactor/vutils';
+import { has, isEqual, isNil, isValidNumber } from '@visactor/vutils';
 import type { IAnimate as IGraphicAnimate } from '@visactor/vrender-core';
 // eslint-disable-next-line no-duplicate-imports
 import { ACustomAnimate, Animate, AnimateGroup, AnimateMode } from '@visactor/vrender-core';
@@ -14,6 +14,7 @@ import type {
   IElement,
   IAnimationEffect
 } from '../../types';
+import { DiffState } from '../enums';
 import { AttributeAnimate, channelAnimationAttributes, CustomInterpolator, typeAnimationAttributes } from './attribute';
 
 Animate.mode |= AnimateMode.SET_ATTR_IMMEDIATELY;
@@ -32,27 +33,41 @@ const isCustomAnimateCtor = (custom?: IAnimationChannelInterpolator | IAnimation
   );
 };
 
+const getValidAttributes = (running: IGraphicAnimate, attributes: Record<string, any>) => {
+  const validAttributes: Record<string, any> = {};
+  Object.keys(attributes ?? {}).forEach(key => {
+    if (running.validAttr(key)) {
+      validAttributes[key] = attributes[key];
+    }
+  });
+  return validAttributes;
+};
+
 export class Animator implements IAnimator {
   id: number = GlobalAnimatorId++;
   element: IElement;
   animationOptions: IAnimatorOptions;
   isAnimating: boolean = false;
+  isExitAnimator: boolean = false;
 
   private unit: IAnimationUnit;
   private runnings: IGraphicAnimate[] = [];
+  /** attributes of the graphic when the animation was created, before any of its effects */
+  private initialAttributes: Record<string, any> = {};
+  /** attributes at the end of all effects */
+  private endAttributes: Record<string, any> = {};
+  private effectAnimates: (AttributeAnimate | CustomInterpolator)[] = [];
+  private totalTimer: ReturnType<typeof setTimeout> = null;
   private callbackFunction: (...args: any[]) => any;
 
   constructor(
     element: IElement,
     unit: IAnimationUnit,
-    animationOptions: {
-      state: string;
-      timeline: IAnimationTimeline;
-      id: string;
-    }
+    animationOptions: IAnimatorOptions
   ) {
     this.element = element;
     this.animationOptions = animationOptions;
+    this.isExitAnimator = element.diffState === DiffState.exit || animationOptions.state === DiffState.exit;
     this.unit = unit;
   }
 
@@ -75,7 +90,15 @@ export class Animator implements IAnimator {
 
   stop(stopState: 'start' | 'end' | null = 'end', invokeCallback: boolean = true): this {
     // FIXME: wait for VRender to fix 'end' parameter
-    this.runnings.forEach(running => running.stop(stopState));
+    this.runnings.forEach(running => {
+      if (isNil(stopState)) {
+        running.stop(stopState);
+      } else {
+        // attributes which have been prevented belong to other animations or later encodings
+        const attributes = stopState === 'start' ? this.getStartAttributes() : this.endAttributes;
+        running.stop(getValidAttributes(running, attributes));
+      }
+    });
     this.animationEnd(invokeCallback);
     return this;
   }
@@ -105,13 +128,37 @@ export class Animator implements IAnimator {
 
   getEndAttributes() {
     return this.runnings.reduce((attributes, running) => {
-      return Object.assign(attributes, running.getEndProps());
+      return Object.assign(attributes, getValidAttributes(running, this.endAttributes));
     }, {} as Record<string, any>);
   }
 
+  private getStartAttributes() {
+    const graphicItem = this.element.getGraphicItem();
+
+    return Object.keys(this.endAttributes).reduce((attributes, channel) => {
+      attributes[channel] = this.initialAttributes[channel] ?? graphicItem.getDefaultAttribute(channel);
+      return attributes;
+    }, {} as Record<string, any>);
+  }
+
+  updateAttributes(attributes: Record<string, any>): this {
+    const endAttributes = this.getEndAttributes();
+    const channels = Object.keys(attributes).filter(channel => {
+      const value = has(this.initialAttributes, channel) ? this.initialAttributes[channel] : attributes[channel];
+      return has(endAttributes, channel) && !isEqual(attributes[channel], value);
+    });
+    Object.assign(this.initialAttributes, attributes);
+    this.runnings.forEach(running => running.preventAttrs(channels));
+    return this;
+  }
+
   private animationEnd(invokeCallback: boolean = true) {
     this.isAnimating = false;
-    this.runnings = null;
+    this.runnings = [];
+    if (!isNil(this.totalTimer)) {
+      clearTimeout(this.totalTimer);
+      this.totalTimer = null;
+    }
     if (invokeCallback) {
       this.callbackFunction?.call(null);
     }
@@ -124,6 +171,8 @@ export class Animator implements IAnimator {
       return;
     }
 
+    this.initialAttributes = Object.assign({}, graphicItem.attribute, this.element.getFinalGraphicAttributes());
+
     const graphicAnimate: IGraphicAnimate = graphicItem.animate();
     this.runnings.push(graphicAnimate);
     // initialDelay is only used at first loop
@@ -139,14 +188,17 @@ export class Animator implements IAnimator {
 
     if (isValidNumber(this.unit.totalTime)) {
       // FIXME: use VRender api instead after VRender refactor is finished
-      setTimeout(() => {
-        if (graphicAnimate) {
-          graphicAnimate.stop('end');
+      this.totalTimer = setTimeout(() => {
+        this.totalTimer = null;
+        if (this.isAnimating) {
+          this.stop('end');
         }
       }, this.unit.totalTime);
     }
 
     graphicAnimate.onEnd(() => {
+      // the last frame might be skipped by VRender
+      this.effectAnimates.forEach(animate => animate.onEnd());
       this.runnings = this.runnings.filter(running => running !== graphicAnimate);
       if (this.runnings.length === 0) {
         this.animationEnd();
@@ -154,6 +206,21 @@ export class Animator implements IAnimator {
     });
   }
 
+  /** the graphic attributes of the channels don't have their final values any more while they are animated */
+  private recordFinalAttributes(attributes: Record<string, any>) {
+    const finalAttributes: Record<string, any> = {};
+    Object.keys(attributes ?? {}).forEach(channel => {
+      const finalAttribute = this.element.getFinalAnimationAttribute(channel);
+      if (!has(this.initialAttributes, channel)) {
+        this.initialAttributes[channel] = finalAttribute;
+      }
+      finalAttributes[channel] = finalAttribute ?? attributes[channel];
+    });
+    if (!this.isExitAnimator) {
+      this.element.fillFinalGraphicAttributes(finalAttributes);
+    }
+  }
+
   private animateTimeSlice(
     graphicAnimate: IGraphicAnimate,
     timeSlice: IAnimationTimeSlice,
@@ -182,6 +249,8 @@ export class Animator implements IAnimator {
               ? channelAnimationAttributes(this.element, effect, animationParameters, parameters)
               : undefined) ?? {};
 
+          this.recordFinalAttributes(attributes.to);
+
           const customOption = attributes.custom || effect?.custom;
           const customParametersOption = attributes?.customParameters || effect?.customParameters;
 
@@ -218,6 +287,13 @@ export class Animator implements IAnimator {
         })
         .filter(animate => !isNil(animate));
 
+      customAnimates.forEach(animate => {
+        Object.assign(this.endAttributes, animate.getEndProps());
+        if (animate instanceof AttributeAnimate || animate instanceof CustomInterpolator) {
+          this.effectAnimates.push(animate);
+        }
+      });
+
       if (customAnimates.length === 1) {
         graphicAnimate.play(customAnimates[0]);
       } else if (customAnimates.length > 1) {
diff --git a/packages/vgrammar-core/src/graph/animation/attribute.ts b/packages/vgrammar-core/src/graph/animation/attribute.ts
index 9db31ab..e6d5f5d 100644
--- a/packages/vgrammar-core/src/graph/animation/attribute.ts
+++ b/packages/vgrammar-core/src/graph/animation/attribute.ts
@@ -91,7 +91,7 @@ export function channelAnimationAttributes(
     attributes = channel.reduce(
       (res, key) => {
         res.from[key] = element.getGraphicAttribute(key, true);
-        res.to[key] = element.getGraphicAttribute(key, false);
+        res.to[key] = element.getFinalAnimationAttribute(key);
         return res;
       },
       { from: {}, to: {} }
@@ -108,7 +108,7 @@ export function channelAnimationAttributes(
             : undefined;
           res.to[key] = hasTo
             ? parseChannelValue(element, key, channel[key].to, animationParameters, parameters)
-            : element.getGraphicAttribute(key, false);
+            : element.getFinalAnimationAttribute(key) ?? element.getGraphicItem()?.getComputedAttribute(key);
         }
 
         return res;
@@ -159,6 +159,22 @@ export class CustomInterpolator extends ACustomAnimate<any> {
       this._element,
       this.params.parameters
     );
+    // attributes which have been prevented belong to other animations or later encodings
+    Object.keys(out).forEach(channel => {
+      if (!this.subAnimate.animate.validAttr(channel)) {
+        delete out[channel];
+      }
+    });
+  }
+
+  onEnd(): void {
+    const out: Record<string, any> = {};
+
+    // the last frame might be skipped by VRender
+    this.onUpdate(true, 1, out);
+    this.target.setAttributes(out as any, false, {
+      type: AttributeUpdateType.ANIMATE_END
+    });
   }
 }
 
diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index 5cee055..29a4742 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -651,8 +651,12 @@ export class Element implements IElement {
       this.setPrevGraphicAttributes(prevGraphicAttributes);
       this.setFinalGraphicAttributes(finalGraphicAttributes);
 
+      const elementAnimators = this.mark.animate?.getElementAnimators(this);
+      // running animations should not bring back the former values of the channels which are changed
+      elementAnimators?.forEach(animator => animator.updateAttributes(nextGraphicAttributes));
+
       // ignore loop animation final attributes
-      const currentAnimators = this.mark.animate?.getElementAnimators(this).filter(animator => {
+      const currentAnimators = elementAnimators?.filter(animator => {
         if (animator.animationOptions.timeline.controlOptions?.ignoreLoopFinalAttributes) {
           return !animator.animationOptions.timeline.loop;
         }
@@ -749,6 +753,10 @@ export class Element implements IElement {
     (this.graphicItem as any).finalAttrs = attributes;
   }
 
+  fillFinalGraphicAttributes(attributes: { [channel: string]: any }) {
+    this.setFinalGraphicAttributes(Object.assign({}, attributes, this.getFinalGraphicAttributes()));
+  }
+
   /**
    * 获取 vRender 变更前的视觉通道属性，只应当由 VGrammar 调用
    * @returns 视觉通道键值对
@@ -777,7 +785,12 @@ export class Element implements IElement {
     return this.getFinalGraphicAttributes()?.[channel] ?? this.getGraphicAttribute(channel);
   }
   getFinalAnimationAttributes() {
-    return this.getFinalGraphicAttributes() ?? this.graphicItem.attribute;
+    const attributes = Object.assign({}, this.graphicItem.attribute);
+    // get attributes before transformed
+    this.mark.getAttributeTransforms()?.forEach(({ storedAttrs }) => {
+      storedAttrs && Object.assign(attributes, attributes[storedAttrs]);
+    });
+    return Object.assign(attributes, this.getFinalGraphicAttributes());
   }
 
   protected setNextGraphicAttributes(attributes: { [channel: string]: any }) {
diff --git a/packages/vgrammar-core/src/types/animate.ts b/packages/vgrammar-core/src/types/animate.ts
index 69e7406..e305a51 100644
--- a/packages/vgrammar-core/src/types/animate.ts
+++ b/packages/vgrammar-core/src/types/animate.ts
@@ -260,6 +260,7 @@ export interface IParsedAnimationAttrs {
 export interface IAnimatorOptions {
   state: string;
   timeline: IAnimationTimeline;
+  originConfig?: IAnimationConfig;
   id: string;
 }
 
@@ -268,6 +269,8 @@ export interface IAnimator {
   element: IElement;
   animationOptions: IAnimatorOptions;
   isAnimating: boolean;
+  /** whether the animator was created for an exiting element */
+  isExitAnimator: boolean;
 
   /** execute animation */
   animate: (animationParameters: IAnimationParameters, parameters: any) => this;
@@ -285,6 +288,9 @@ export interface IAnimator {
   getTotalAnimationTime: () => number;
 
   getEndAttributes: () => Record<string, any>;
+
+  /** stop animating the attributes which are changed by encoding */
+  updateAttributes: (attributes: Record<string, any>) => this;
 }
 
 export interface IAnimateArranger {
diff --git a/packages/vgrammar-core/src/types/element.ts b/packages/vgrammar-core/src/types/element.ts
index 16b4fbb..cf7c9f5 100644
--- a/packages/vgrammar-core/src/types/element.ts
+++ b/packages/vgrammar-core/src/types/element.ts
@@ -149,6 +149,8 @@ export interface IElement {
   // 动画相关接口
 
   getFinalGraphicAttributes: () => { [key: string]: any };
+  /** add final values of the channels which have not been changed */
+  fillFinalGraphicAttributes: (attributes: { [key: string]: any }) => void;
   getPrevGraphicAttributes: () => { [key: string]: any };
   getNextGraphicAttributes: () => { [key: string]: any };
   getFinalAnimationAttribute: (channel: string) => any;
diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 622dfbf..06b59be 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -740,7 +740,7 @@ export class Mark extends GrammarBase implements IMark {
         if (element.diffState === DiffState.exit) {
           // force element to stop exit animation if it is reentered
           element.diffState = DiffState.enter;
-          const animators = this.animate?.getElementAnimators(element, DiffState.exit);
+          const animators = this.animate?.getElementAnimators(element).filter(animator => animator.isExitAnimator);
           animators && animators.forEach(animator => animator.stop('start'));
         }
 
-- 
2.43.0


From a6dcc0e68954e30bf868429cb761bf5137c0a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 082/168] fix: easings of several effects in one time slice
 were accumulated

---
 .../src/graph/animation/animator.ts           | 12 +++++++---
 .../src/graph/animation/attribute.ts          | 23 +++++++++++++++++--
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/animator.ts b/packages/vgrammar-core/src/graph/animation/animator.ts
index 6e6d5c4..cd3f545 100644
--- a/packages/vgrammar-core/src/graph/animation/animator.ts
+++ b/packages/vgrammar-core/src/graph/animation/animator.ts
@@ -1,7 +1,7 @@
 import { has, isEqual, isNil, isValidNumber } from '@visactor/vutils';
 import type { IAnimate as IGraphicAnimate } from '@visactor/vrender-core';
 // eslint-disable-next-line no-duplicate-imports
-import { ACustomAnimate, Animate, AnimateGroup, AnimateMode } from '@visactor/vrender-core';
+import { ACustomAnimate, Animate, AnimateMode } from '@visactor/vrender-core';
 import type {
   IAnimationChannelInterpolator,
   IAnimationCustomConstructor,
@@ -15,7 +15,13 @@ import type {
   IAnimationEffect
 } from '../../types';
 import { DiffState } from '../enums';
-import { AttributeAnimate, channelAnimationAttributes, CustomInterpolator, typeAnimationAttributes } from './attribute';
+import {
+  AttributeAnimate,
+  channelAnimationAttributes,
+  CustomInterpolator,
+  EffectGroup,
+  typeAnimationAttributes
+} from './attribute';
 
 Animate.mode |= AnimateMode.SET_ATTR_IMMEDIATELY;
 
@@ -297,7 +303,7 @@ export class Animator implements IAnimator {
       if (customAnimates.length === 1) {
         graphicAnimate.play(customAnimates[0]);
       } else if (customAnimates.length > 1) {
-        graphicAnimate.play(new AnimateGroup(duration, customAnimates));
+        graphicAnimate.play(new EffectGroup(duration, customAnimates));
       }
     }
 
diff --git a/packages/vgrammar-core/src/graph/animation/attribute.ts b/packages/vgrammar-core/src/graph/animation/attribute.ts
index e6d5f5d..6cfb609 100644
--- a/packages/vgrammar-core/src/graph/animation/attribute.ts
+++ b/packages/vgrammar-core/src/graph/animation/attribute.ts
@@ -1,7 +1,7 @@
 import type { EasingType, IGraphic } from '@visactor/vrender-core';
 // eslint-disable-next-line no-duplicate-imports
-import { ACustomAnimate, AttributeUpdateType, NOWORK_ANIMATE_ATTR } from '@visactor/vrender-core';
-import { isArray, isFunction, isNil, isObject, isValid } from '@visactor/vutils';
+import { ACustomAnimate, AnimateGroup, AttributeUpdateType, Easing, NOWORK_ANIMATE_ATTR } from '@visactor/vrender-core';
+import { isArray, isFunction, isNil, isObject, isString, isValid } from '@visactor/vutils';
 import type {
   IAnimationChannelInterpolator,
   IAnimationEffect,
@@ -288,3 +288,22 @@ export class AttributeAnimate extends ACustomAnimate<any> {
     );
   }
 }
+
+export class EffectGroup extends AnimateGroup {
+  declare customAnimates: ACustomAnimate<any>[];
+
+  private _isUpdating: boolean = false;
+
+  // the easing of VRender AnimateGroup is accumulated from one animation to the next
+  onUpdate(end: boolean, ratio: number, out: Record<string, any>): void {
+    if (this._isUpdating) {
+      return;
+    }
+    this._isUpdating = true;
+    this.customAnimates.forEach(animate => {
+      const easing = isString(animate.easing) ? Easing[animate.easing] : animate.easing;
+      animate.onUpdate(end, easing ? easing(ratio) : ratio, out);
+    });
+    this._isUpdating = false;
+  }
+}
-- 
2.43.0


From 4aaca85e8a03d51e95721ceb1a0597b71d29490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 083/168] fix: an animation arranged after another one which is
 not arranged itself started with it

---
 packages/vgrammar-core/src/graph/animation/arranger.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vgrammar-core/src/graph/animation/arranger.ts b/packages/vgrammar-core/src/graph/animation/arranger.ts
index d06f145..a120ba2 100644
--- a/packages/vgrammar-core/src/graph/animation/arranger.ts
+++ b/packages/vgrammar-core/src/graph/animation/arranger.ts
@@ -15,6 +15,7 @@ export class Arranger implements IAnimateArranger {
     this.totalTime = this.animators.reduce((time, animator) => {
       return Math.max(time, animator.getTotalAnimationTime());
     }, 0);
+    this.endTime = this.totalTime;
   }
 
   parallel(arranger: IAnimateArranger) {
-- 
2.43.0


From c6e1ca16413016d32502597044827468725133ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 084/168] fix: dodge and jitter keep the position of marks that
 were encoded on entering instead of making it NaN

---
 packages/vgrammar-core/src/transforms/mark/dodge.ts  | 10 ++++++++++
 packages/vgrammar-core/src/transforms/mark/jitter.ts |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/packages/vgrammar-core/src/transforms/mark/dodge.ts b/packages/vgrammar-core/src/transforms/mark/dodge.ts
index 7def24f..4e6ae78 100644
--- a/packages/vgrammar-core/src/transforms/mark/dodge.ts
+++ b/packages/vgrammar-core/src/transforms/mark/dodge.ts
@@ -82,6 +82,11 @@ export const transform = (options: DodgeTransformOptions, upstreamData: IElement
         const offset = offsetByGroup[groupValue];
         const attrs = element.getItemAttribute();
 
+        if (isNil(attrs[dodgeChannel])) {
+          // not encoded this time, keep the former position
+          return;
+        }
+
         if (dodgeChannel === 'x') {
           const x = isNil(attrs.width) && !isNil(attrs.x1) ? Math.min(attrs.x, attrs.x1) : attrs.x;
           const width = !isNil(attrs.width) ? attrs.width : isNil(attrs.x1) ? bandWidth : Math.abs(attrs.x1 - attrs.x);
@@ -118,6 +123,11 @@ export const transform = (options: DodgeTransformOptions, upstreamData: IElement
         const groupValue = getDodgeBy(element);
         const offset = offsetByGroup[groupValue];
 
+        if (isNil(element.getItemAttribute(dodgeChannel))) {
+          // not encoded this time, keep the former position
+          return;
+        }
+
         if (dodgeChannel === 'x') {
           const x = element.getItemAttribute('x') + bandWidth / 2 + offset + size / 2;
 
diff --git a/packages/vgrammar-core/src/transforms/mark/jitter.ts b/packages/vgrammar-core/src/transforms/mark/jitter.ts
index d8b485d..36ac96a 100644
--- a/packages/vgrammar-core/src/transforms/mark/jitter.ts
+++ b/packages/vgrammar-core/src/transforms/mark/jitter.ts
@@ -20,12 +20,21 @@ const jitterByChannel = (options: JitterTransformOptions, upstreamData: IElement
     const length = upstreamData.length;
 
     upstreamData.forEach((element, index) => {
+      if (isNil(element.getItemAttribute(channel))) {
+        // not encoded this time, keep the former position
+        return;
+      }
       element.setItemAttributes({ [channel]: domain[0] + (domain[1] - domain[0]) * random(index, length) });
     });
   } else {
     const length = upstreamData.length;
     upstreamData.forEach((element, index) => {
       const val = element.getItemAttribute(channel);
+
+      if (isNil(val)) {
+        // not encoded this time, keep the former position
+        return;
+      }
       const domain = [val - ratio * bandSize, val + ratio * bandSize];
       element.setItemAttributes({ [channel]: domain[0] + (domain[1] - domain[0]) * random(index, length) });
     });
-- 
2.43.0


From 44907b5f8392b38302f4cb46fbab15971fbaba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 085/168] fix: mark-overlap compares with the radius of the
 mark shown last, and works in both directions at once

---
 .../src/transforms/mark/mark-overlap.ts              | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts b/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
index 98f9400..75adf6a 100644
--- a/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
+++ b/packages/vgrammar-core/src/transforms/mark/mark-overlap.ts
@@ -39,9 +39,8 @@ function overlapX(elements: IElement[], delta: number, deltaMul: number, useRadi
         }
       } else {
         lastX = currentX;
+        lastR = r;
       }
-
-      lastR = r;
     });
   }
 }
@@ -71,16 +70,15 @@ function overlapY(elements: IElement[], delta: number, deltaMul: number, useRadi
         }
       } else {
         lastY = currentY;
+        lastR = r;
       }
-
-      lastR = r;
     });
   }
 }
 
 function overlapXY(elements: IElement[], delta: number, deltaMul: number, useRadius: boolean) {
   if (useRadius) {
-    const lastX = -Infinity;
+    let lastX = -Infinity;
     let lastY = -Infinity;
     let lastR = 0;
     let dis = 0;
@@ -107,10 +105,10 @@ function overlapXY(elements: IElement[], delta: number, deltaMul: number, useRad
           element.setGraphicAttribute('visible', false);
         }
       } else {
+        lastX = currentX;
         lastY = currentY;
+        lastR = r;
       }
-
-      lastR = r;
     });
   }
 }
-- 
2.43.0


From f829e9e24b6bd001191c9646ca13a4796d200f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 086/168] fix: boxes of box plots and violins were drawn with
 the width of the glyph instead of their own

---
 packages/vgrammar-core/src/glyph/boxplot.ts |  8 +++++---
 packages/vgrammar-core/src/glyph/violin.ts  | 15 +++++----------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/packages/vgrammar-core/src/glyph/boxplot.ts b/packages/vgrammar-core/src/glyph/boxplot.ts
index 2fadede..4b82166 100644
--- a/packages/vgrammar-core/src/glyph/boxplot.ts
+++ b/packages/vgrammar-core/src/glyph/boxplot.ts
@@ -169,7 +169,8 @@ const computeBoxplotCenter = (
 const encodeBoxplotSize = (encodeValues: any, datum: any, element: IGlyphElement, config: any) => {
   const attributes = {
     shaft: {},
-    box: {},
+    // the box spans x ~ x1 and y ~ y1, the size of the glyph should not be inherited
+    box: { width: undefined as number, height: undefined as number },
     max: {},
     min: {},
     median: {}
@@ -389,8 +390,9 @@ const computeBarBoxplotCenter = (
 
 const encodeBarBoxplotSize = (encodeValues: any, datum: any, element: IGlyphElement, config: any) => {
   const attributes = {
-    minMaxBox: {},
-    q1q3Box: {},
+    // the boxes span x ~ x1 and y ~ y1, the size of the glyph should not be inherited
+    minMaxBox: { width: undefined as number, height: undefined as number },
+    q1q3Box: { width: undefined as number, height: undefined as number },
     median: {}
   };
 
diff --git a/packages/vgrammar-core/src/glyph/violin.ts b/packages/vgrammar-core/src/glyph/violin.ts
index e335111..3c2a89b 100644
--- a/packages/vgrammar-core/src/glyph/violin.ts
+++ b/packages/vgrammar-core/src/glyph/violin.ts
@@ -76,17 +76,12 @@ const encodeViolin = (encodeValues: any, datum: any, element: IGlyphElement, con
   }
 
   if (config && isHorizontal(config.direction)) {
-    if (isValidNumber(boxHeight)) {
-      Object.assign(attributes.box, { y: y - boxHeight / 2, y1: y + boxHeight / 2 });
-    } else {
-      Object.assign(attributes.box, { y: y - height / 2, y1: y + height / 2 });
-    }
+    const size = isValidNumber(boxHeight) ? boxHeight : height;
+    // the size of the glyph should not be inherited by the box
+    Object.assign(attributes.box, { y: y - size / 2, y1: y + size / 2, height: size, width: undefined });
   } else {
-    if (isValidNumber(boxWidth)) {
-      Object.assign(attributes.box, { x: x - boxWidth / 2, x1: x + boxWidth / 2 });
-    } else {
-      Object.assign(attributes.box, { x: x - width / 2, x1: x + width / 2 });
-    }
+    const size = isValidNumber(boxWidth) ? boxWidth : width;
+    Object.assign(attributes.box, { x: x - size / 2, x1: x + size / 2, width: size, height: undefined });
   }
   return attributes;
 };
-- 
2.43.0


From 5b9ccf31ffb632ad3af6bcd5ec2fae392c79c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 087/168] fix: the start arrow of vertical tree paths had both
 wings on one side

---
 packages/vgrammar-core/src/glyph/tree-path.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/glyph/tree-path.ts b/packages/vgrammar-core/src/glyph/tree-path.ts
index 9383740..bcf41c1 100644
--- a/packages/vgrammar-core/src/glyph/tree-path.ts
+++ b/packages/vgrammar-core/src/glyph/tree-path.ts
@@ -101,7 +101,7 @@ export const getVerticalPath = (options: TreePathEncoderSpec) => {
           )},${formatter(y1 - sign * arrowSize)}`
         : '';
       const startArrowPath = options.startArrow
-        ? `M${formatter(x0 + arrowSize)},${formatter(y0 + sign * arrowSize)}L${x0},${formatter(y0)}L${formatter(
+        ? `M${formatter(x0 - arrowSize)},${formatter(y0 + sign * arrowSize)}L${x0},${formatter(y0)}L${formatter(
             x0 + arrowSize
           )},${formatter(y0 + sign * arrowSize)}`
         : '';
-- 
2.43.0


From f99b363ed60036e5a040b707d534d33259ce31ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 088/168] fix: arrows of links that run backwards pointed away
 from their end

---
 packages/vgrammar-core/src/glyph/link-path.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/glyph/link-path.ts b/packages/vgrammar-core/src/glyph/link-path.ts
index b3073a5..4438cce 100644
--- a/packages/vgrammar-core/src/glyph/link-path.ts
+++ b/packages/vgrammar-core/src/glyph/link-path.ts
@@ -61,15 +61,16 @@ export const getHorizontalPath = (options: LinkPathEncoderSpec, ratio?: number)
   const y11 = formatter(y10 + thickness);
 
   const hasLength = Math.abs(x1 - x0) > 1e-6;
+  const arrowLength = x1 < x0 ? -thickness : thickness;
   const endArrowPath =
     options.endArrow && hasLength
-      ? `L${x1},${formatter(y10 - thickness / 2)}L${formatter(x1 + thickness)},${formatter(
+      ? `L${x1},${formatter(y10 - thickness / 2)}L${formatter(x1 + arrowLength)},${formatter(
           (y10 + y11) / 2
         )}L${x1},${formatter(y11 + thickness / 2)}`
       : '';
   const startArrowPath =
     options.startArrow && hasLength
-      ? `L${x0},${formatter(y01 + thickness / 2)}L${formatter(x0 - thickness)},${formatter(
+      ? `L${x0},${formatter(y01 + thickness / 2)}L${formatter(x0 - arrowLength)},${formatter(
           (y00 + y01) / 2
         )}L${x0},${formatter(y00 - thickness / 2)}`
       : '';
@@ -132,16 +133,17 @@ export const getVerticalPath = (options: LinkPathEncoderSpec, ratio?: number) =>
   const x11 = formatter(x10 + thickness);
 
   const hasLength = Math.abs(y1 - y0) > 1e-6;
+  const arrowLength = y1 < y0 ? -thickness : thickness;
   const endArrowPath =
     options.endArrow && hasLength
       ? `L${formatter(x10 - thickness / 2)},${y1}L${formatter((x10 + x11) / 2)},${formatter(
-          y1 + thickness
+          y1 + arrowLength
         )}L${formatter(x11 + thickness / 2)},${y1}`
       : '';
   const startArrowPath =
     options.startArrow && hasLength
       ? `L${formatter(x01 + thickness / 2)},${y0}L${formatter((x01 + x00) / 2)},${formatter(
-          y0 - thickness
+          y0 - arrowLength
         )}L${formatter(x00 - thickness / 2)},${y0}`
       : '';
 
-- 
2.43.0


From 9ba9c2b6ba4f397671e76a262d2dba2611bb6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 089/168] fix: horizontal bar box plots were rotated around a
 mixed-up default anchor

---
 packages/vgrammar-core/src/glyph/boxplot.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/glyph/boxplot.ts b/packages/vgrammar-core/src/glyph/boxplot.ts
index 4b82166..d887acb 100644
--- a/packages/vgrammar-core/src/glyph/boxplot.ts
+++ b/packages/vgrammar-core/src/glyph/boxplot.ts
@@ -489,7 +489,11 @@ export function registerBarBoxplotGlyph() {
         : { median: { y: encodeValue, y1: encodeValue, visible: true } };
     })
     .registerChannelEncoder('angle', (channel, encodeValue, encodeValues, datum, element, config) => {
-      const anchor = encodeValues.anchor ?? [encodeValues.x, (encodeValues.min + encodeValues.max) / 2];
+      const defaultAnchor =
+        config && isHorizontal(config.direction)
+          ? [(encodeValues.min + encodeValues.max) / 2, encodeValues.y]
+          : [encodeValues.x, (encodeValues.min + encodeValues.max) / 2];
+      const anchor = encodeValues.anchor ?? defaultAnchor;
       return {
         minMaxBox: { angle: encodeValue, anchor },
         q1q3Box: { angle: encodeValue, anchor },
-- 
2.43.0


From 5b51c98bd4385bba62b1a552d099cdd0dd40c365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 090/168] fix: box plots without a median grew from their
 whiskers, or not at all, instead of from the middle of the box

---
 packages/vgrammar-core/src/glyph/boxplot.ts | 36 +++++++--------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/packages/vgrammar-core/src/glyph/boxplot.ts b/packages/vgrammar-core/src/glyph/boxplot.ts
index d887acb..9d946ee 100644
--- a/packages/vgrammar-core/src/glyph/boxplot.ts
+++ b/packages/vgrammar-core/src/glyph/boxplot.ts
@@ -133,19 +133,15 @@ const computeBoxplotCenter = (
     max = glyphElement.getGraphicAttribute('points', false, 'max')?.[0]?.x;
     min = glyphElement.getGraphicAttribute('points', false, 'min')?.[0]?.x;
 
-    const boxWidth = glyphElement.getGraphicAttribute('width', false, 'box');
-    const boxX = glyphElement.getGraphicAttribute('x', false, 'box');
-    q1 = boxX;
-    q3 = boxX + boxWidth;
+    q1 = glyphElement.getGraphicAttribute('x', false, 'box');
+    q3 = glyphElement.getGraphicAttribute('x1', false, 'box');
   } else {
     median = glyphElement.getGraphicAttribute('points', false, 'median')?.[0]?.y;
     max = glyphElement.getGraphicAttribute('points', false, 'max')?.[0]?.y;
     min = glyphElement.getGraphicAttribute('points', false, 'min')?.[0]?.y;
 
-    const boxHeight = glyphElement.getGraphicAttribute('height', false, 'box');
-    const boxY = glyphElement.getGraphicAttribute('y', false, 'box');
-    q1 = boxY;
-    q3 = boxY + boxHeight;
+    q1 = glyphElement.getGraphicAttribute('y', false, 'box');
+    q3 = glyphElement.getGraphicAttribute('y1', false, 'box');
   }
 
   if (isValidNumber(median)) {
@@ -347,27 +343,19 @@ const computeBarBoxplotCenter = (
   if (isHorizontal(direction)) {
     median = glyphElement.getGraphicAttribute('points', false, 'median')?.[0]?.x;
 
-    const minMaxBoxWidth = glyphElement.getGraphicAttribute('width', false, 'minMaxBox');
-    const minMaxBoxBoxX = glyphElement.getGraphicAttribute('x', false, 'minMaxBox');
-    min = minMaxBoxBoxX;
-    max = minMaxBoxBoxX + minMaxBoxWidth;
+    min = glyphElement.getGraphicAttribute('x', false, 'minMaxBox');
+    max = glyphElement.getGraphicAttribute('x1', false, 'minMaxBox');
 
-    const q1q3BoxWidth = glyphElement.getGraphicAttribute('width', false, 'q1q3Box');
-    const q1q3BoxX = glyphElement.getGraphicAttribute('x', false, 'q1q3Box');
-    q1 = q1q3BoxX;
-    q3 = q1q3BoxX + q1q3BoxWidth;
+    q1 = glyphElement.getGraphicAttribute('x', false, 'q1q3Box');
+    q3 = glyphElement.getGraphicAttribute('x1', false, 'q1q3Box');
   } else {
     median = glyphElement.getGraphicAttribute('points', false, 'median')?.[0]?.y;
 
-    const minMaxBoxHeight = glyphElement.getGraphicAttribute('height', false, 'minMaxBox');
-    const minMaxBoxBoxY = glyphElement.getGraphicAttribute('y', false, 'minMaxBox');
-    min = minMaxBoxBoxY;
-    max = minMaxBoxBoxY + minMaxBoxHeight;
+    min = glyphElement.getGraphicAttribute('y', false, 'minMaxBox');
+    max = glyphElement.getGraphicAttribute('y1', false, 'minMaxBox');
 
-    const q1q3BoxHeight = glyphElement.getGraphicAttribute('height', false, 'q1q3Box');
-    const q1q3BoxY = glyphElement.getGraphicAttribute('y', false, 'q1q3Box');
-    q1 = q1q3BoxY;
-    q3 = q1q3BoxY + q1q3BoxHeight;
+    q1 = glyphElement.getGraphicAttribute('y', false, 'q1q3Box');
+    q3 = glyphElement.getGraphicAttribute('y1', false, 'q1q3Box');
   }
 
   if (isValidNumber(median)) {
-- 
2.43.0


From 1ef2ad04d99bcc23d6519c30b3616455f5e93539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 091/168] fix: states of glyphs kept the attributes computed
 from earlier data

---
 packages/vgrammar-core/src/graph/glyph-element.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vgrammar-core/src/graph/glyph-element.ts b/packages/vgrammar-core/src/graph/glyph-element.ts
index 5f04d6b..3506485 100644
--- a/packages/vgrammar-core/src/graph/glyph-element.ts
+++ b/packages/vgrammar-core/src/graph/glyph-element.ts
@@ -142,6 +142,7 @@ export class GlyphElement extends Element implements IGlyphElement {
       this.graphicItem.clearStates();
       // 更新数据流后，states计算不缓存
       this.graphicItem.states = {};
+      this.graphicItem.glyphStates = null;
       this.graphicItem.stateProxy = null;
     }
 
-- 
2.43.0


From 747dc5af96cd15883f6d7394d86fee16e3583125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 092/168] fix: the declared order of states was ignored by
 glyphs

---
 packages/vgrammar-core/src/graph/glyph-element.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/glyph-element.ts b/packages/vgrammar-core/src/graph/glyph-element.ts
index 3506485..6a9453f 100644
--- a/packages/vgrammar-core/src/graph/glyph-element.ts
+++ b/packages/vgrammar-core/src/graph/glyph-element.ts
@@ -65,7 +65,9 @@ export class GlyphElement extends Element implements IGlyphElement {
     }
     this.mark.emit(HOOK_EVENT.BEFORE_ELEMENT_STATE, { states }, this);
 
-    this.states = states.slice();
+    const stateSort = this.mark.getSpec()?.stateSort;
+
+    this.states = stateSort ? states.slice().sort(stateSort) : states.slice();
 
     const stateAnimationEnable = isBoolean(hasAnimation) ? hasAnimation : this.hasStateAnimation();
 
-- 
2.43.0


From b110099d9c6f7f2a47e5fb827163962ec0da0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 093/168] fix: a state that moves or resizes a wave left its
 waves behind

---
 packages/vgrammar-core/src/glyph/wave.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/glyph/wave.ts b/packages/vgrammar-core/src/glyph/wave.ts
index 7b3f1b1..771b552 100644
--- a/packages/vgrammar-core/src/glyph/wave.ts
+++ b/packages/vgrammar-core/src/glyph/wave.ts
@@ -1,4 +1,6 @@
 import type { IPointLike } from '@visactor/vutils';
+// eslint-disable-next-line no-duplicate-imports
+import { isNil } from '@visactor/vutils';
 import { Factory } from '../core/factory';
 import type { WaveEncoderSpec } from '../types';
 import { registerAreaGraphic, registerGlyphGraphic } from '../graph/mark/graphic';
@@ -10,19 +12,24 @@ export const registerWaveGlyph = () => {
     wave1: 'area',
     wave2: 'area'
   })
-    .registerChannelEncoder('wave', (channel, encodeValue, encodeValues, datum, element) => {
+    .registerFunctionEncoder((encodeValues: WaveEncoderSpec) => {
+      const wave = encodeValues.wave;
+
+      if (isNil(wave)) {
+        return {};
+      }
       const originPoints: IPointLike[] = new Array(21).fill(0).map((v, index) => {
         const waveHeight = index % 2 === 0 ? 20 : 0;
         return { x: -500 + 50 * index, y: encodeValues.y + waveHeight, y1: encodeValues.y + encodeValues.height };
       });
       const points0 = originPoints.map(point => {
-        return { x: point.x + encodeValue * 100, y: point.y, y1: point.y1 };
+        return { x: point.x + wave * 100, y: point.y, y1: point.y1 };
       });
       const points1 = originPoints.map(point => {
-        return { x: point.x + encodeValue * 200 - 40, y: point.y, y1: point.y1 };
+        return { x: point.x + wave * 200 - 40, y: point.y, y1: point.y1 };
       });
       const points2 = originPoints.map(point => {
-        return { x: point.x + encodeValue * 300 - 20, y: point.y, y1: point.y1 };
+        return { x: point.x + wave * 300 - 20, y: point.y, y1: point.y1 };
       });
       return {
         wave0: { points: points0, x: 0, y: 0 },
-- 
2.43.0


From 8fdf59c1baad91d3241a1f9206b9c4174436d9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 094/168] fix: cells on one band scale had an undefined size,
 and cells and intervals encoded by a function or without scales threw

---
 packages/vgrammar-core/src/semantic-marks/cell.ts     | 8 ++++----
 packages/vgrammar-core/src/semantic-marks/interval.ts | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/semantic-marks/cell.ts b/packages/vgrammar-core/src/semantic-marks/cell.ts
index 552bcd2..c04d971 100644
--- a/packages/vgrammar-core/src/semantic-marks/cell.ts
+++ b/packages/vgrammar-core/src/semantic-marks/cell.ts
@@ -56,8 +56,8 @@ export class Cell extends Mark {
           const userEncodeRes = invokeEncoder(userEncoder, datum, element, parameters);
 
           if (isNil(userEncodeRes.size)) {
-            const sizeX = scales.x ? getBandWidthOfScale(scales.x) : undefined;
-            const sizeY = scales.y ? getBandWidthOfScale(scales.y) : undefined;
+            const sizeX = scales?.x ? getBandWidthOfScale(scales.x) : undefined;
+            const sizeY = scales?.y ? getBandWidthOfScale(scales.y) : undefined;
 
             if (isNil(sizeX) && isNil(sizeY)) {
               userEncodeRes.size = 10;
@@ -65,9 +65,9 @@ export class Cell extends Mark {
               userEncodeRes.size = sizeY;
             } else if (isNil(sizeY)) {
               userEncodeRes.size = sizeX;
+            } else {
+              userEncodeRes.size = [sizeX, sizeY];
             }
-
-            userEncodeRes.size = [sizeX, sizeY];
           }
 
           if (isNil(userEncodeRes.shape)) {
diff --git a/packages/vgrammar-core/src/semantic-marks/interval.ts b/packages/vgrammar-core/src/semantic-marks/interval.ts
index f505126..08081c4 100644
--- a/packages/vgrammar-core/src/semantic-marks/interval.ts
+++ b/packages/vgrammar-core/src/semantic-marks/interval.ts
@@ -92,7 +92,7 @@ export class Interval extends Mark {
             const scaleGrammar =
               this.view.getScaleById((userEncoder as any).x?.scale) ??
               this.view.getScaleById((userEncoder as any).y?.scale);
-            const coord = scaleGrammar.getCoordinate();
+            const coord = scaleGrammar?.getCoordinate();
 
             if (coord && coord.type === 'polar') {
               this.disableCoordinateTransform = true;
-- 
2.43.0


From aa9395a786656eddb17d0cd07025136cfcd4215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 095/168] fix: intervals and cells kept using a scale that was
 replaced

---
 .../vgrammar-core/src/semantic-marks/cell.ts  | 19 +++++++++----------
 .../src/semantic-marks/interval.ts            | 19 +++++++++----------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/packages/vgrammar-core/src/semantic-marks/cell.ts b/packages/vgrammar-core/src/semantic-marks/cell.ts
index c04d971..92dfe5d 100644
--- a/packages/vgrammar-core/src/semantic-marks/cell.ts
+++ b/packages/vgrammar-core/src/semantic-marks/cell.ts
@@ -41,18 +41,17 @@ export class Cell extends Mark {
     const userEncoder = this.spec.encode[state] as GetSingleEncodeSpecByType<'cell'>;
 
     if (userEncoder && state === 'update') {
-      const params = this.parameters();
-      const scales: Record<string, IBaseScale> = isFunctionType(userEncoder)
-        ? null
-        : Object.keys(userEncoder).reduce((res, channel) => {
-            if (isScaleEncode(userEncoder[channel])) {
-              res[channel] = getGrammarOutput(userEncoder[channel].scale, params);
-            }
-            return res;
-          }, {});
-
       this._encoders[state] = {
         callback: (datum: any, element: IElement, parameters: any) => {
+          // the scale may be replaced after the encoder is declared
+          const scales: Record<string, IBaseScale> = isFunctionType(userEncoder)
+            ? null
+            : Object.keys(userEncoder).reduce((res, channel) => {
+                if (isScaleEncode(userEncoder[channel])) {
+                  res[channel] = getGrammarOutput(userEncoder[channel].scale, parameters);
+                }
+                return res;
+              }, {});
           const userEncodeRes = invokeEncoder(userEncoder, datum, element, parameters);
 
           if (isNil(userEncodeRes.size)) {
diff --git a/packages/vgrammar-core/src/semantic-marks/interval.ts b/packages/vgrammar-core/src/semantic-marks/interval.ts
index 08081c4..f2ce425 100644
--- a/packages/vgrammar-core/src/semantic-marks/interval.ts
+++ b/packages/vgrammar-core/src/semantic-marks/interval.ts
@@ -44,18 +44,17 @@ export class Interval extends Mark {
     const userEncoder = this.spec.encode[state] as GetSingleEncodeSpecByType<'interval'>;
 
     if (userEncoder && state === 'update') {
-      const params = this.parameters();
-      const scales: Record<string, IBaseScale> = isFunctionType(userEncoder)
-        ? null
-        : Object.keys(userEncoder).reduce((res, channel) => {
-            if (isScaleEncode(userEncoder[channel])) {
-              res[channel] = getGrammarOutput(userEncoder[channel].scale, params);
-            }
-            return res;
-          }, {});
-
       this._encoders[state] = {
         callback: (datum: any, element: IElement, parameters: any) => {
+          // the scale may be replaced after the encoder is declared
+          const scales: Record<string, IBaseScale> = isFunctionType(userEncoder)
+            ? null
+            : Object.keys(userEncoder).reduce((res, channel) => {
+                if (isScaleEncode(userEncoder[channel])) {
+                  res[channel] = getGrammarOutput(userEncoder[channel].scale, parameters);
+                }
+                return res;
+              }, {});
           const userEncodeRes = invokeEncoder(userEncoder, datum, element, parameters);
 
           this.disableCoordinateTransform = false;
-- 
2.43.0


From 3de4558ff22d583b6a9b542a6ab2a293a211a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 096/168] fix: unbinding a filtering control left its listener
 and its filter behind, and roll-up needed a component to be registered

---
 .../src/interactions/brush-filter.ts          |  7 ++++++-
 .../src/interactions/drill-down.ts            |  7 ++++++-
 .../vgrammar-core/src/interactions/filter.ts  | 21 +++++++++++++++++--
 .../vgrammar-core/src/interactions/index.ts   |  3 ++-
 4 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-filter.ts b/packages/vgrammar-core/src/interactions/brush-filter.ts
index cb9c36f..b98ab39 100644
--- a/packages/vgrammar-core/src/interactions/brush-filter.ts
+++ b/packages/vgrammar-core/src/interactions/brush-filter.ts
@@ -6,7 +6,7 @@ import { DataFilterRank } from '../graph/enums';
 import type { FilterMixin } from './filter';
 
 export interface BrushFilter
-  extends Pick<FilterMixin, '_data' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData'>,
+  extends Pick<FilterMixin, '_data' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData' | '_unfilterData'>,
     BrushBase<BrushFilterOptions> {}
 
 export class BrushFilter extends BrushBase<BrushFilterOptions> {
@@ -38,6 +38,11 @@ export class BrushFilter extends BrushBase<BrushFilterOptions> {
     return super.getEvents();
   }
 
+  unbind() {
+    super.unbind();
+    this._unfilterData();
+  }
+
   handleBrushUpdate = (event: {
     type: string;
     detail: {
diff --git a/packages/vgrammar-core/src/interactions/drill-down.ts b/packages/vgrammar-core/src/interactions/drill-down.ts
index 7caa0e2..ab3267e 100644
--- a/packages/vgrammar-core/src/interactions/drill-down.ts
+++ b/packages/vgrammar-core/src/interactions/drill-down.ts
@@ -6,7 +6,7 @@ import { DataFilterRank } from '../graph/enums';
 import type { FilterMixin } from './filter';
 
 export interface DrillDown
-  extends Pick<FilterMixin, '_data' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData'>,
+  extends Pick<FilterMixin, '_data' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData' | '_unfilterData'>,
     BrushBase<DrillDownOptions> {}
 
 export class DrillDown extends BrushBase<DrillDownOptions> {
@@ -49,6 +49,11 @@ export class DrillDown extends BrushBase<DrillDownOptions> {
     ];
   }
 
+  unbind() {
+    super.unbind();
+    this._unfilterData();
+  }
+
   handleBrushUpdate = (event: {
     type: string;
     detail: {
diff --git a/packages/vgrammar-core/src/interactions/filter.ts b/packages/vgrammar-core/src/interactions/filter.ts
index a2c50ba..9e20340 100644
--- a/packages/vgrammar-core/src/interactions/filter.ts
+++ b/packages/vgrammar-core/src/interactions/filter.ts
@@ -21,7 +21,8 @@ export class FilterMixin {
     transform?: (data: any[], parameters: any) => any[]
   ) {
     const dataGrammar = isString(data) ? this.view.getDataById(data) : data;
-    if (dataGrammar) {
+    // the filter is added once, no matter how often the events of the interaction are asked for
+    if (dataGrammar && !this._dataFilter) {
       this.handleFilter = (event: InteractionEvent) => {
         const element = event?.element;
         if (!dataGrammar || (source && (!element || element.mark !== source))) {
@@ -49,10 +50,21 @@ export class FilterMixin {
     }
     return this;
   }
+
+  _unfilterData() {
+    if (this._dataFilter) {
+      const dataGrammar = isString(this._data) ? this.view.getDataById(this._data) : this._data;
+      dataGrammar?.removeDataFilter(this._dataFilter);
+      dataGrammar?.commit();
+      this._dataFilter = null;
+      this._filterValue = null;
+    }
+    return this;
+  }
 }
 
 export interface Filter
-  extends Pick<FilterMixin, '_data' | '_marks' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData'>,
+  extends Pick<FilterMixin, '_data' | '_marks' | '_filterValue' | '_dataFilter' | 'handleFilter' | '_filterData' | '_unfilterData'>,
     BaseInteraction<DataFilterOptions> {}
 
 export abstract class Filter extends BaseInteraction<DataFilterOptions> {
@@ -65,4 +77,9 @@ export abstract class Filter extends BaseInteraction<DataFilterOptions> {
       this._data = isString(options.target.data) ? view.getDataById(options.target.data) : options.target.data;
     }
   }
+
+  unbind() {
+    super.unbind();
+    this._unfilterData();
+  }
 }
diff --git a/packages/vgrammar-core/src/interactions/index.ts b/packages/vgrammar-core/src/interactions/index.ts
index eae584a..d4cd835 100644
--- a/packages/vgrammar-core/src/interactions/index.ts
+++ b/packages/vgrammar-core/src/interactions/index.ts
@@ -18,7 +18,7 @@ import { RollUp } from './roll-up';
 import { Tooltip } from './tooltip';
 import { DimensionTooltip } from './dimension-tooltip';
 import { Crosshair } from './crosshair';
-import { FilterMixin } from './filter';
+import { Filter, FilterMixin } from './filter';
 import { ViewZoom } from './view-zoom';
 import { ViewScroll } from './view-scroll';
 import { ViewDrag } from './view-drag';
@@ -122,6 +122,7 @@ export const registerDrillDown = () => {
 };
 
 export const registerRollUp = () => {
+  mixin(Filter, FilterMixin);
   Factory.registerInteraction(RollUp.type, RollUp);
 };
 
-- 
2.43.0


From 8e36dd9075f85e8eabb8ec7b745e9086e1a5c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 097/168] fix: a slider with a single handler filtered
 everything

---
 .../vgrammar-core/src/interactions/slider-filter.ts    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/slider-filter.ts b/packages/vgrammar-core/src/interactions/slider-filter.ts
index d47ba20..81ed25d 100644
--- a/packages/vgrammar-core/src/interactions/slider-filter.ts
+++ b/packages/vgrammar-core/src/interactions/slider-filter.ts
@@ -1,6 +1,6 @@
 import type { DataFilterOptions, IComponent, ISlider, IView, SliderFilterValue } from '../types';
 import { DataFilterRank, GrammarMarkType } from '../graph/enums';
-import { isString } from '@visactor/vutils';
+import { isArray, isString } from '@visactor/vutils';
 import { Filter } from './filter';
 
 export class SliderFilter extends Filter {
@@ -36,7 +36,13 @@ export class SliderFilter extends Filter {
     const filter = this.options.target.filter;
     const transform = this.options.target.transform;
 
-    const getFilterValue = (event: any) => ({ start: event.detail.value[0], end: event.detail.value[1] });
+    const getFilterValue = (event: any) => {
+      const value = event.detail.value;
+      // a slider with a single handler selects everything up to its value
+      return isArray(value)
+        ? { start: value[0], end: value[1] }
+        : { start: (slider.getGroupGraphicItem()?.attribute as any)?.min, end: value };
+    };
     const dataFilter = isString(filter)
       ? (datum: any, filterValue: SliderFilterValue) =>
           datum[filter] >= filterValue.start && datum[filter] <= filterValue.end
-- 
2.43.0


From 262ad644ec68611bb636bc63ae4ac2e6e80dedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 098/168] fix: legends of numbers filtered everything, because
 their labels are strings

---
 packages/vgrammar-core/src/interactions/legend-filter.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/legend-filter.ts b/packages/vgrammar-core/src/interactions/legend-filter.ts
index 84bfc34..2aa4100 100644
--- a/packages/vgrammar-core/src/interactions/legend-filter.ts
+++ b/packages/vgrammar-core/src/interactions/legend-filter.ts
@@ -44,7 +44,9 @@ export class LegendFilter extends Filter {
       ? isContinuous
         ? (datum: any, filterValue: { start: number; end: number }) =>
             datum[filter] >= filterValue.start && datum[filter] <= filterValue.end
-        : (datum: any, filterValue: any[]) => filterValue.includes(datum[filter])
+        : // the labels of a legend are strings, whatever the type of the field is
+          (datum: any, filterValue: any[]) =>
+            filterValue.includes(datum[filter]) || filterValue.includes(`${datum[filter]}`)
       : filter;
 
     this._filterData(this._data, legend, DataFilterRank.legend, getFilterValue, dataFilter, transform);
-- 
2.43.0


From dbd47aa8e32175b4f454de5d634ff568bc84084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 099/168] fix: roll-up never returned to all rows

---
 packages/vgrammar-core/src/interactions/roll-up.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/roll-up.ts b/packages/vgrammar-core/src/interactions/roll-up.ts
index 2c045ce..5cd4ce6 100644
--- a/packages/vgrammar-core/src/interactions/roll-up.ts
+++ b/packages/vgrammar-core/src/interactions/roll-up.ts
@@ -36,12 +36,11 @@ export class RollUp extends Filter {
 
     const transform = this.options.target.transform;
 
-    const getFilterValue = (event: InteractionEvent) => event?.element?.getDatum?.();
     const dataTransform = (data: any[], filterValue: any) => {
       return transform(data, filterValue);
     };
 
-    this._filterData(this._data, null, DataFilterRank.rollUp, getFilterValue, undefined, dataTransform);
+    this._filterData(this._data, null, DataFilterRank.rollUp, null, undefined, dataTransform);
 
     const events = [
       {
@@ -76,11 +75,11 @@ export class RollUp extends Filter {
       const filterValue = event.element?.getDatum?.();
 
       const isEqualFilterValue =
-        filterValue === this._filterData ||
+        filterValue === this._filterValue ||
         (isArray(filterValue) &&
           isArray(this._filterValue) &&
           filterValue.length === this._filterValue.length &&
-          filterValue.every(datum => !this._filterValue.includes(datum)));
+          filterValue.every(datum => this._filterValue.includes(datum)));
 
       if (isEqualFilterValue) {
         // reset filter value when toggle is enabled
@@ -89,6 +88,7 @@ export class RollUp extends Filter {
           this.handleFilter(event);
         }
       } else {
+        this._filterValue = filterValue;
         this.handleFilter(event);
       }
     }
-- 
2.43.0


From 69412ead3113a5a928516fcbc33ddc6781ff3079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 100/168] fix: clearing the brush of a brush filter or a
 drill-down hid all rows instead of showing them

---
 packages/vgrammar-core/src/interactions/brush-filter.ts | 9 ++++++++-
 packages/vgrammar-core/src/interactions/drill-down.ts   | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/brush-filter.ts b/packages/vgrammar-core/src/interactions/brush-filter.ts
index b98ab39..2a9f006 100644
--- a/packages/vgrammar-core/src/interactions/brush-filter.ts
+++ b/packages/vgrammar-core/src/interactions/brush-filter.ts
@@ -1,4 +1,5 @@
 import type { IPolygon } from '@visactor/vrender-core';
+import { IOperateType } from '@visactor/vrender-components';
 import type { BrushFilterOptions, IElement, IGlyphElement, IView } from '../types';
 import { BrushBase } from './brush-base';
 import { isString, type IBounds, array } from '@visactor/vutils';
@@ -65,7 +66,13 @@ export class BrushFilter extends BrushBase<BrushFilterOptions> {
       });
     });
 
-    if (this._data) {
+    if (this._data && event.type === IOperateType.brushClear) {
+      // nothing is selected any more, so all of the data is shown
+      if (this._filterValue) {
+        this._filterValue = null;
+        this.handleFilter();
+      }
+    } else if (this._data) {
       // remove repeated datum
       filterValue = Array.from(new Set(filterValue));
 
diff --git a/packages/vgrammar-core/src/interactions/drill-down.ts b/packages/vgrammar-core/src/interactions/drill-down.ts
index ab3267e..e650579 100644
--- a/packages/vgrammar-core/src/interactions/drill-down.ts
+++ b/packages/vgrammar-core/src/interactions/drill-down.ts
@@ -1,4 +1,5 @@
 import type { IPolygon } from '@visactor/vrender-core';
+import { IOperateType } from '@visactor/vrender-components';
 import type { DrillDownOptions, IElement, IGlyphElement, IView, InteractionEvent } from '../types';
 import { BrushBase } from './brush-base';
 import { isString, type IBounds, array } from '@visactor/vutils';
@@ -76,7 +77,13 @@ export class DrillDown extends BrushBase<DrillDownOptions> {
       });
     });
 
-    if (this._data) {
+    if (this._data && event.type === IOperateType.brushClear) {
+      // nothing is selected any more, so all of the data is shown
+      if (this._filterValue) {
+        this._filterValue = null;
+        this.handleFilter();
+      }
+    } else if (this._data) {
       // remove repeated datum
       filterValue = Array.from(new Set(filterValue));
 
-- 
2.43.0


From 37a335d423c5bc3de52a4aec117951e3175ceb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 101/168] fix: filters of legends, sliders, data zooms and
 scroll bars were ignored while a brush filter was active

---
 packages/vgrammar-core/src/graph/enums.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/enums.ts b/packages/vgrammar-core/src/graph/enums.ts
index dd70e8c..cc0b8b8 100644
--- a/packages/vgrammar-core/src/graph/enums.ts
+++ b/packages/vgrammar-core/src/graph/enums.ts
@@ -79,11 +79,12 @@ export enum DataFilterRank {
   player = 1,
   rollUp = 2,
   drillDown = 3,
-  slider = 4,
-  datazoom = 5,
-  legend = 6,
-  scrollbar = 7,
-  brush = 8,
+  // the brushed rows take the place of the data, so the filters below have to come after it
+  brush = 4,
+  slider = 5,
+  datazoom = 6,
+  legend = 7,
+  scrollbar = 8,
   normal = 9
 }
 
-- 
2.43.0


From 19f41ceb102e02d3e3f321e390a8b4f80c03df46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 102/168] fix: dragging a view never moved anything, because
 the drag options were dropped

---
 packages/vgrammar-core/src/interactions/view-drag.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/view-drag.ts b/packages/vgrammar-core/src/interactions/view-drag.ts
index 16465cc..d1251ff 100644
--- a/packages/vgrammar-core/src/interactions/view-drag.ts
+++ b/packages/vgrammar-core/src/interactions/view-drag.ts
@@ -47,7 +47,7 @@ export class ViewDrag extends ViewNavigationBase<ViewDragOptions> {
       this._initGrammars();
     }
 
-    this.updateView('start', this.handleDragStart(e, this._state, { reversed: this.options.reversed }), 'drag', e);
+    this.updateView('start', this.handleDragStart(e, this._state, this.options), 'drag', e);
   };
 
   handleUpdateInner = (e: InteractionEvent) => {
@@ -55,7 +55,7 @@ export class ViewDrag extends ViewNavigationBase<ViewDragOptions> {
       return;
     }
 
-    this.updateView('update', this.handleDragUpdate(e, this._state, { reversed: this.options.reversed }), 'drag', e);
+    this.updateView('update', this.handleDragUpdate(e, this._state, this.options), 'drag', e);
   };
 
   handleEnd = (e: InteractionEvent) => {
@@ -63,7 +63,7 @@ export class ViewDrag extends ViewNavigationBase<ViewDragOptions> {
       return;
     }
 
-    this.updateView('end', this.handleDragEnd(e, this._state, { reversed: this.options.reversed }), 'drag', e);
+    this.updateView('end', this.handleDragEnd(e, this._state, this.options), 'drag', e);
 
     this._isStarted = false;
   };
-- 
2.43.0


From e84e2bd19e45ed5a8b5ce9e24204ad039daf116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 103/168] fix: every step of a drag moved the range by the
 whole distance from the start again

---
 packages/vgrammar-core/src/interactions/view-drag-mixin.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/view-drag-mixin.ts b/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
index 40e2cba..44bb844 100644
--- a/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
@@ -58,6 +58,9 @@ export class ViewDragMixin implements IViewDragMixin {
     if (dragOptions?.realtime) {
       const x = e.canvasX - this._dragStart.x;
       const y = e.canvasY - this._dragStart.y;
+
+      // each update moves the range from where the last one left it
+      this._dragStart = { x: e.canvasX, y: e.canvasY };
       return handleScrolling({ x, y }, navState, dragOptions);
     }
 
-- 
2.43.0


From 8c7d213c6f2fc24953531fa253efe3a2aa4e0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 104/168] fix: a second pointer took over the drag of the first
 one

---
 packages/vgrammar-core/src/interactions/view-drag-mixin.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/view-drag-mixin.ts b/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
index 44bb844..9f71acc 100644
--- a/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-drag-mixin.ts
@@ -16,10 +16,11 @@ export class ViewDragMixin implements IViewDragMixin {
 
   protected _shouldTriggerDragByPointer(e: InteractionEvent) {
     if (!isNil((e as any).pointerId)) {
-      const shouldStart = isNil(this._pointerId) || this._pointerId === (e as any).pointerId;
-      this._pointerId = (e as any).pointerId;
+      if (isNil(this._pointerId)) {
+        this._pointerId = (e as any).pointerId;
+      }
 
-      return shouldStart;
+      return this._pointerId === (e as any).pointerId;
     }
 
     return true;
-- 
2.43.0


From 8cfd6d27e59b52033d385a9764055b13250ece42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 105/168] fix: scrolling that is not realtime was never applied

---
 packages/vgrammar-core/src/interactions/view-scroll-mixin.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/view-scroll-mixin.ts b/packages/vgrammar-core/src/interactions/view-scroll-mixin.ts
index 68b48b1..f313176 100644
--- a/packages/vgrammar-core/src/interactions/view-scroll-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-scroll-mixin.ts
@@ -79,7 +79,7 @@ export class ViewScrollMixin implements IViewScrollMixin {
   ): ViewNavigationRange {
     // do nothing now
 
-    if (scrollOptions?.realtime === false && (isNil(this._scrollX) || isNil(this._scrollY))) {
+    if (scrollOptions?.realtime === false && (!isNil(this._scrollX) || !isNil(this._scrollY))) {
       const res = handleScrolling({ x: this._scrollX, y: this._scrollY }, navState, scrollOptions);
       this._scrollX = null;
       this._scrollY = null;
-- 
2.43.0


From e593b612dcb930baee281b1f2642cf9b5b19f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 106/168] fix: zooming a view never changed anything, because
 the zoom options were dropped

---
 .../vgrammar-core/src/interactions/view-zoom.ts   | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/view-zoom.ts b/packages/vgrammar-core/src/interactions/view-zoom.ts
index 9a22a19..3a0abf7 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom.ts
@@ -57,10 +57,7 @@ export class ViewZoom extends ViewNavigationBase<ViewZoomOptions> {
 
     this.updateView(
       'start',
-      (this as unknown as IViewZoomMixin).handleZoomStart(e, this._state, {
-        rate: this.options.rate,
-        focus: this.options.focus
-      }),
+      (this as unknown as IViewZoomMixin).handleZoomStart(e, this._state, this.options),
       'zoom',
       e
     );
@@ -78,10 +75,7 @@ export class ViewZoom extends ViewNavigationBase<ViewZoomOptions> {
 
     this.updateView(
       'end',
-      (this as unknown as IViewZoomMixin).handleZoomEnd(e, this._state, {
-        rate: this.options.rate,
-        focus: this.options.focus
-      }),
+      (this as unknown as IViewZoomMixin).handleZoomEnd(e, this._state, this.options),
       'zoom',
       e
     );
@@ -97,10 +91,7 @@ export class ViewZoom extends ViewNavigationBase<ViewZoomOptions> {
 
     this.updateView(
       'reset',
-      (this as unknown as IViewZoomMixin).handleZoomReset(e, this._state, {
-        rate: this.options.rate,
-        focus: this.options.focus
-      }),
+      (this as unknown as IViewZoomMixin).handleZoomReset(e, this._state, this.options),
       'zoom',
       e
     );
-- 
2.43.0


From 77cfbd71ff607ec9af72b8cf300e5a0fee95ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 107/168] fix: zooming or scrolling filtered data after a reset
 threw

---
 packages/vgrammar-core/src/interactions/view-zoom-mixin.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
index 848a7b3..fe5b125 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
@@ -202,7 +202,7 @@ export class ViewZoomMixin implements IViewZoomMixin {
       if (linkedComponent) {
         res[dim] = newRange;
       } else if (scale) {
-        navState[dim].rangeFactor = null;
+        navState[dim].rangeFactor = undefined;
 
         if (data) {
           navState[dim].filterValue = null;
-- 
2.43.0


From 4fcf3a549f2ae4c9f2e12b0afdfa73c203f33e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 108/168] fix: zooming ignored how far the scale had been
 scrolled or zoomed by others

---
 packages/vgrammar-core/src/interactions/view-zoom-mixin.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
index fe5b125..05b46b8 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
@@ -111,7 +111,8 @@ export class ViewZoomMixin implements IViewZoomMixin {
         res[dim] = this.updateZoomRange(getRangeOfLinkedComponent(linkedComponent), null, zoomPos, zoomOptions);
       } else if (scale) {
         const innerScale = scale.getScale();
-        const newRange = this.updateZoomRange(rangeFactor, innerScale, zoomPos, zoomOptions);
+        const oldRange = scale.getRangeFactor() || rangeFactor;
+        const newRange = this.updateZoomRange(oldRange, innerScale.range(), zoomPos, zoomOptions);
 
         if (newRange) {
           navState[dim].rangeFactor = newRange;
-- 
2.43.0


From 30697f509c0e00e59ebbe8488e377aaa92a61bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 109/168] fix: a roamed view could not be reset any more once
 the pointer was released

---
 packages/vgrammar-core/src/interactions/view-roam.ts | 2 +-
 packages/vgrammar-core/src/interactions/view-zoom.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/view-roam.ts b/packages/vgrammar-core/src/interactions/view-roam.ts
index 97b43e8..1f3f368 100644
--- a/packages/vgrammar-core/src/interactions/view-roam.ts
+++ b/packages/vgrammar-core/src/interactions/view-roam.ts
@@ -131,7 +131,7 @@ export class ViewRoam extends ViewNavigationBase<ViewRoamOptions> {
   };
 
   handleRoamZoomReset = (e: InteractionEvent) => {
-    if (!this._isZoomStarted || !e || (this.options.shouldReset && !this.options.shouldReset(e))) {
+    if (!this._inited || !e || (this.options.shouldReset && !this.options.shouldReset(e))) {
       return;
     }
     this.updateView('reset', this.handleZoomReset(e, this._state, this.options.zoom), 'zoom', e);
diff --git a/packages/vgrammar-core/src/interactions/view-zoom.ts b/packages/vgrammar-core/src/interactions/view-zoom.ts
index 3a0abf7..385c897 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom.ts
@@ -82,7 +82,7 @@ export class ViewZoom extends ViewNavigationBase<ViewZoomOptions> {
   };
 
   handleReset = (e: InteractionEvent) => {
-    if (!this._isStarted) {
+    if (!this._inited) {
       return;
     }
     if (!e || (this.options.shouldReset && !this.options.shouldReset(e))) {
-- 
2.43.0


From c7885ecf54d138c4053dac517cae1a34d160dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 110/168] fix: scrolling and zooming reported an end for every
 later release of the pointer

---
 packages/vgrammar-core/src/interactions/view-roam.ts | 2 +-
 packages/vgrammar-core/src/interactions/view-zoom.ts | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/view-roam.ts b/packages/vgrammar-core/src/interactions/view-roam.ts
index 1f3f368..dd1a4d7 100644
--- a/packages/vgrammar-core/src/interactions/view-roam.ts
+++ b/packages/vgrammar-core/src/interactions/view-roam.ts
@@ -192,6 +192,6 @@ export class ViewRoam extends ViewNavigationBase<ViewRoamOptions> {
     }
 
     this.updateView('end', this.handleScrollEnd(e, this._state, this.options.scroll), 'scroll', e);
-    this._isScrollStarted = true;
+    this._isScrollStarted = false;
   };
 }
diff --git a/packages/vgrammar-core/src/interactions/view-zoom.ts b/packages/vgrammar-core/src/interactions/view-zoom.ts
index 385c897..11e26c9 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom.ts
@@ -79,6 +79,7 @@ export class ViewZoom extends ViewNavigationBase<ViewZoomOptions> {
       'zoom',
       e
     );
+    this._isStarted = false;
   };
 
   handleReset = (e: InteractionEvent) => {
-- 
2.43.0


From 131298b8dedfe1c68886a96295e593672bfbf008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 111/168] fix: unbinding a navigation kept the data filtered,
 and it did nothing after being bound again

---
 packages/vgrammar-core/src/interactions/view-navigation-base.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/view-navigation-base.ts b/packages/vgrammar-core/src/interactions/view-navigation-base.ts
index d9f8c57..1ca75e6 100644
--- a/packages/vgrammar-core/src/interactions/view-navigation-base.ts
+++ b/packages/vgrammar-core/src/interactions/view-navigation-base.ts
@@ -189,6 +189,7 @@ export abstract class ViewNavigationBase<
         if (data && scale) {
           data.detach(scale);
           data.removeDataFilter(dim === 'x' ? this._dataFilterX : this._dataFilterY);
+          data.commit();
         } else if (scale) {
           scale.setRangeFactor(null);
           scale.commit();
@@ -197,5 +198,6 @@ export abstract class ViewNavigationBase<
     }
 
     this._state = null;
+    this._inited = false;
   }
 }
-- 
2.43.0


From e62748ef64aa717761bc5b1def0b25d6beef125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 112/168] fix: unbinding a fisheye kept the scale distorted and
 reset its visible range instead

---
 packages/vgrammar-core/src/interactions/fish-eye.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/fish-eye.ts b/packages/vgrammar-core/src/interactions/fish-eye.ts
index 0934311..8724be9 100644
--- a/packages/vgrammar-core/src/interactions/fish-eye.ts
+++ b/packages/vgrammar-core/src/interactions/fish-eye.ts
@@ -177,12 +177,14 @@ export class FishEye extends BaseInteraction<FishEyeOptions> {
         const { scale } = this._state[dim as 'x' | 'y'];
 
         if (scale) {
-          scale.setRangeFactor(null);
+          scale.setFishEye(null);
           scale.commit();
         }
       });
     }
 
     this._state = null;
+    this._inited = false;
+    this._isActive = false;
   }
 }
-- 
2.43.0


From 1960a63a9a40366f8fddcf69aced6dc9cd4da4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 113/168] fix: a range navigated without a scale started from
 its initial value at every step

---
 packages/vgrammar-core/src/interactions/view-utils.ts      | 3 +++
 packages/vgrammar-core/src/interactions/view-zoom-mixin.ts | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/view-utils.ts b/packages/vgrammar-core/src/interactions/view-utils.ts
index 71908e4..21cd48a 100644
--- a/packages/vgrammar-core/src/interactions/view-utils.ts
+++ b/packages/vgrammar-core/src/interactions/view-utils.ts
@@ -114,6 +114,9 @@ export const handleScrolling = (
       const oldRange = (getCurrentRange ? getCurrentRange() : rangeFactor) || [0, 1];
       const newRange = updateScrollRange(oldRange, [0, 1], scrollPos[dim], scrollOptions);
 
+      if (newRange) {
+        navState[dim].rangeFactor = newRange;
+      }
       res[dim] = newRange || oldRange;
     }
   });
diff --git a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
index 05b46b8..4e8c56c 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom-mixin.ts
@@ -132,6 +132,9 @@ export class ViewZoomMixin implements IViewZoomMixin {
         const oldRange = (getCurrentRange ? getCurrentRange() : rangeFactor) || [0, 1];
         const newRange = this.updateZoomRange(oldRange, null, zoomPos, zoomOptions);
 
+        if (newRange) {
+          navState[dim].rangeFactor = newRange;
+        }
         res[dim] = newRange || oldRange;
       }
     });
-- 
2.43.0


From 86469f47af44448f3e9266b78265c700662ab14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 114/168] fix: zooming a view linked to a scroll bar moved its
 start only and kept its size

---
 .../vgrammar-core/src/interactions/view-navigation-base.ts    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/view-navigation-base.ts b/packages/vgrammar-core/src/interactions/view-navigation-base.ts
index 1ca75e6..2d56f54 100644
--- a/packages/vgrammar-core/src/interactions/view-navigation-base.ts
+++ b/packages/vgrammar-core/src/interactions/view-navigation-base.ts
@@ -153,8 +153,8 @@ export abstract class ViewNavigationBase<
     if (comp.componentType === ComponentEnum.datazoom) {
       (comp as IDatazoom).setStartEndValue(newRange[0], newRange[1]);
     } else {
-      // fix: need to update range scrollbar
-      (comp as IScrollbar).setScrollStart(newRange[0]);
+      const scrollbar = comp.getGroupGraphicItem() as unknown as { setScrollRange?: (range: [number, number]) => void };
+      scrollbar?.setScrollRange?.(newRange);
     }
   }
 
-- 
2.43.0


From cd79d67586057c7c384c610148acceb1b787e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 115/168] fix: a gesture that was interrupted by unbinding went
 on after being bound again

---
 packages/vgrammar-core/src/interactions/view-drag.ts   | 6 ++++++
 packages/vgrammar-core/src/interactions/view-roam.ts   | 8 ++++++++
 packages/vgrammar-core/src/interactions/view-scroll.ts | 6 ++++++
 packages/vgrammar-core/src/interactions/view-zoom.ts   | 6 ++++++
 4 files changed, 26 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/view-drag.ts b/packages/vgrammar-core/src/interactions/view-drag.ts
index d1251ff..e95ef5d 100644
--- a/packages/vgrammar-core/src/interactions/view-drag.ts
+++ b/packages/vgrammar-core/src/interactions/view-drag.ts
@@ -67,4 +67,10 @@ export class ViewDrag extends ViewNavigationBase<ViewDragOptions> {
 
     this._isStarted = false;
   };
+
+  unbind() {
+    super.unbind();
+    // an interrupted gesture does not continue after being bound again
+    this._isStarted = false;
+  }
 }
diff --git a/packages/vgrammar-core/src/interactions/view-roam.ts b/packages/vgrammar-core/src/interactions/view-roam.ts
index dd1a4d7..4bb6d38 100644
--- a/packages/vgrammar-core/src/interactions/view-roam.ts
+++ b/packages/vgrammar-core/src/interactions/view-roam.ts
@@ -194,4 +194,12 @@ export class ViewRoam extends ViewNavigationBase<ViewRoamOptions> {
     this.updateView('end', this.handleScrollEnd(e, this._state, this.options.scroll), 'scroll', e);
     this._isScrollStarted = false;
   };
+
+  unbind() {
+    super.unbind();
+    // an interrupted gesture does not continue after being bound again
+    this._isZoomStarted = false;
+    this._isDragStarted = false;
+    this._isScrollStarted = false;
+  }
 }
diff --git a/packages/vgrammar-core/src/interactions/view-scroll.ts b/packages/vgrammar-core/src/interactions/view-scroll.ts
index c7c6a3a..7e96dd1 100644
--- a/packages/vgrammar-core/src/interactions/view-scroll.ts
+++ b/packages/vgrammar-core/src/interactions/view-scroll.ts
@@ -72,4 +72,10 @@ export class ViewScroll extends ViewNavigationBase<ViewScrollOptions> {
     );
     this._isStarted = false;
   };
+
+  unbind() {
+    super.unbind();
+    // an interrupted gesture does not continue after being bound again
+    this._isStarted = false;
+  }
 }
diff --git a/packages/vgrammar-core/src/interactions/view-zoom.ts b/packages/vgrammar-core/src/interactions/view-zoom.ts
index 11e26c9..dbd7f03 100644
--- a/packages/vgrammar-core/src/interactions/view-zoom.ts
+++ b/packages/vgrammar-core/src/interactions/view-zoom.ts
@@ -98,4 +98,10 @@ export class ViewZoom extends ViewNavigationBase<ViewZoomOptions> {
     );
     this._isStarted = false;
   };
+
+  unbind() {
+    super.unbind();
+    // an interrupted gesture does not continue after being bound again
+    this._isStarted = false;
+  }
 }
-- 
2.43.0


From 7db2b5d5b644a45569fa3b6c71e8c6f7db2dc3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 116/168] fix: a data zoom forgot its end whenever its preview
 or its encoding was updated

---
 packages/vgrammar-core/src/component/datazoom.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/component/datazoom.ts b/packages/vgrammar-core/src/component/datazoom.ts
index 9a0df45..ad2feb0 100644
--- a/packages/vgrammar-core/src/component/datazoom.ts
+++ b/packages/vgrammar-core/src/component/datazoom.ts
@@ -136,7 +136,14 @@ export class Datazoom extends Component implements IDatazoom {
           callback: (datum: any, element: IElement, parameters: any) => {
             const theme = this.spec.skipTheme ? null : this.view.getCurrentTheme();
             const addition = invokeEncoder(encoder as BaseSingleEncodeSpec, datum, element, parameters);
-            return generateDatazoomAttributes(dataGrammar?.getValue?.(), theme, addition);
+            const attributes = generateDatazoomAttributes(dataGrammar?.getValue?.(), theme, addition);
+            // the default range is only an initial one, it should not overwrite what has been selected since then
+            const selected = this.getStartEndValue();
+            if (selected) {
+              attributes.start = addition?.start ?? selected.start;
+              attributes.end = addition?.end ?? selected.end;
+            }
+            return attributes;
           }
         };
       }
-- 
2.43.0


From 2838190f08615e86aa76ede944853fd86488796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 117/168] fix: progressive lines listed their elements once per
 step and threw when one group ended before another

---
 packages/vgrammar-core/src/view/mark.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 06b59be..ad89df6 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -1013,6 +1013,11 @@ export class Mark extends GrammarBase implements IMark {
         const groupStep = this.renderContext.progressive.step;
         const dataSlice = data.slice(currentIndex * groupStep, (currentIndex + 1) * groupStep);
 
+        // all the data of this group has been handled in the former steps
+        if (!dataSlice.length) {
+          return;
+        }
+
         if (currentIndex === 0) {
           const element = this.createElement();
           element.diffState = DiffState.enter;
@@ -1127,7 +1132,7 @@ export class Mark extends GrammarBase implements IMark {
       });
 
       this.elements = elements;
-    } else {
+    } else if (!this.isCollectionMark()) {
       this.elements = this.elements.concat(elements);
     }
 
-- 
2.43.0


From 746d10ca5eabac1c967a241a569d5732e590bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 118/168] fix: progressive glyphs lost the group encoding of
 every group but the last after the first step

---
 packages/vgrammar-core/src/view/mark.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index ad89df6..ef866ac 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -821,7 +821,8 @@ export class Mark extends GrammarBase implements IMark {
       (res as any)[key] = invokeEncoder(groupEncode, el.items && el.items[0] && el.items[0].datum, el, parameters);
     });
 
-    this._groupEncodeResult = res;
+    // in progressive mode, the groups are encoded one by one
+    this._groupEncodeResult = this.renderContext?.progressive ? { ...this._groupEncodeResult, ...res } : res;
 
     return res;
   }
-- 
2.43.0


From 2683b8e70b0402dc1891a8d51150a97bb3f22a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 119/168] fix: a mark whose data fell below the progressive
 threshold kept its former progressive graphics

---
 packages/vgrammar-core/src/view/mark.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index ef866ac..5017b6c 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -234,6 +234,8 @@ export class Mark extends GrammarBase implements IMark {
     const stage = this.view.renderer?.stage();
 
     this.init(stage, parameters);
+    // the former progressive rendering is replaced by this evaluation
+    this.clearProgressive();
     const transformData = this.evaluateTransform(this._getTransformsBeforeJoin(), data ?? DefaultMarkData, parameters);
     const progressiveTransform = transformData?.progressive;
 
@@ -246,6 +248,10 @@ export class Mark extends GrammarBase implements IMark {
 
     if (this.renderContext?.progressive) {
       this.differ.reset();
+      this.elementMap.forEach(element => {
+        element.remove();
+        element.release();
+      });
       this.elementMap.clear();
       this.evaluateProgressive();
     } else {
@@ -981,6 +987,10 @@ export class Mark extends GrammarBase implements IMark {
 
   clearProgressive() {
     if (this.renderContext && this.renderContext.progressive) {
+      this.elements.forEach(element => {
+        element.remove();
+        element.release();
+      });
       this.elements = [];
 
       (this.graphicParent as any).children.forEach((group: IGroup) => {
-- 
2.43.0


From c75512ac1a0854a1cccb711b8b3e336e47b4543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 120/168] fix: updating the view while marks were rendered
 progressively wiped the marks that did not change

---
 packages/vgrammar-core/src/view/View.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index f622753..b195b8b 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -856,7 +856,8 @@ export default class View extends EventEmitter implements IView {
       return this;
     }
 
-    this.clearProgressive();
+    // the marks in progress which are not evaluated again will go on after this evaluation
+    this.cancelProgressiveFrame();
 
     // evaluate dataflow
     this._dataflow.evaluate();
@@ -1385,12 +1386,17 @@ export default class View extends EventEmitter implements IView {
     this.doPreProgressive();
   };
 
-  /** 清除 */
-  private clearProgressive() {
+  private cancelProgressiveFrame() {
     if (this._progressiveRafId) {
       const cancelRaf = vglobal.getCancelAnimationFrame();
       cancelRaf(this._progressiveRafId);
+      this._progressiveRafId = null;
     }
+  }
+
+  /** 清除 */
+  private clearProgressive() {
+    this.cancelProgressiveFrame();
 
     if (this._progressiveMarks && this._progressiveMarks.length) {
       this._progressiveMarks.forEach(entry => {
-- 
2.43.0


From 0acab154ffdb58b71cb42e1d4793ed975eeb5162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 121/168] fix: nothing was animated or cleaned up while any
 mark had been rendered progressively, and finishing a progressive word cloud
 threw

---
 packages/vgrammar-core/src/view/View.ts    | 21 ++++++++++++---------
 packages/vgrammar-core/src/view/animate.ts |  3 ++-
 packages/vgrammar-core/src/view/mark.ts    |  3 ++-
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index b195b8b..f9d0907 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -817,7 +817,7 @@ export default class View extends EventEmitter implements IView {
     this.emit(HOOK_EVENT.BEFORE_DO_RENDER);
     // render as needed
     if (this.renderer) {
-      if (!this._progressiveMarks && this.animate) {
+      if (this.animate) {
         this.animate.animate();
       } else {
         // 清理没有动画的离场元素
@@ -1349,7 +1349,7 @@ export default class View extends EventEmitter implements IView {
       return null;
     }
 
-    this._progressiveMarks = marks;
+    this._progressiveMarks = marks.filter(mark => mark.isDoingProgressive());
 
     if (this.renderer) {
       this.renderer.combineIncrementalLayers();
@@ -1359,15 +1359,9 @@ export default class View extends EventEmitter implements IView {
   }
 
   private doPreProgressive() {
-    if (this._progressiveMarks && this._progressiveMarks.some(mark => mark.isDoingProgressive())) {
+    if (this._progressiveMarks?.some(mark => mark.isDoingProgressive())) {
       const raf = vglobal.getRequestAnimationFrame();
       this._progressiveRafId = raf(this.handleProgressiveFrame);
-    } else if (
-      this._progressiveMarks &&
-      this.animate &&
-      this._progressiveMarks.every(mark => mark.canAnimateAfterProgressive())
-    ) {
-      this.animate.animate();
     } else if (this._progressiveMarks) {
       this._progressiveMarks = null;
     }
@@ -1376,11 +1370,20 @@ export default class View extends EventEmitter implements IView {
   /** 监听frame事件，更新增量元素的mark */
   private handleProgressiveFrame = () => {
     if (this._progressiveMarks.length) {
+      let hasJoined = false;
+
       this._progressiveMarks.forEach(mark => {
         if (mark.isDoingProgressive()) {
           mark.evaluateProgressive();
+          hasJoined = hasJoined || mark.isUpdated;
         }
       });
+
+      // marks with progressive transforms join all the current output in every frame, the same as in normal evaluation
+      if (hasJoined) {
+        this.animate?.animate();
+        this.handleRenderEnd();
+      }
     }
 
     this.doPreProgressive();
diff --git a/packages/vgrammar-core/src/view/animate.ts b/packages/vgrammar-core/src/view/animate.ts
index c3db727..317d246 100644
--- a/packages/vgrammar-core/src/view/animate.ts
+++ b/packages/vgrammar-core/src/view/animate.ts
@@ -108,7 +108,8 @@ export class ViewAnimate implements IViewAnimate {
 
     this._view.traverseMarkTree(
       mark => {
-        if (mark.isUpdated && mark.animate) {
+        // the elements rendered progressively are not animated
+        if (mark.isUpdated && mark.animate && (!mark.isProgressive() || mark.needAnimate())) {
           mark.animate.animate();
         }
         mark.cleanExitElements();
diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 5017b6c..da2af04 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -972,7 +972,7 @@ export class Mark extends GrammarBase implements IMark {
     return (
       this.renderContext &&
       this.renderContext.beforeTransformProgressive &&
-      this.renderContext.beforeTransformProgressive.canAnimate()
+      this.renderContext.beforeTransformProgressive.canAnimate?.()
     );
   }
 
@@ -1117,6 +1117,7 @@ export class Mark extends GrammarBase implements IMark {
       this.emit(HOOK_EVENT.BEFORE_MARK_ENCODE);
       this.evaluateEncode(this.elements, this._getEncoders(), this.renderContext.parameters);
       this.emit(HOOK_EVENT.AFTER_MARK_ENCODE);
+      this.isUpdated = true;
       return;
     }
 
-- 
2.43.0


From fcbcfd2c5a3d10dbf58c32bfc7dac2bde53b68ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 122/168] fix: removing a mark rendered progressively played
 its enter animation

---
 packages/vgrammar-core/src/view/mark.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index da2af04..0d820ec 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -1262,6 +1262,8 @@ export class Mark extends GrammarBase implements IMark {
     this.animate?.stop();
     this.elementMap.forEach(element => (element.diffState = DiffState.exit));
     this._finalParameters = this.parameters();
+    // the elements rendered progressively have no exit animation, and no more of them will be rendered
+    this.clearProgressive();
   }
 
   release() {
-- 
2.43.0


From 3e292ace8f8b3ee293646c1b5276e4a5b6117cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 123/168] fix: a glyph in a coordinate threw while it left
 together with its coordinate

---
 packages/vgrammar-core/src/view/mark.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 0d820ec..a05de7f 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -1262,6 +1262,11 @@ export class Mark extends GrammarBase implements IMark {
     this.animate?.stop();
     this.elementMap.forEach(element => (element.diffState = DiffState.exit));
     this._finalParameters = this.parameters();
+    // the coordinate might be released before the exit animations end
+    const coordinate = this.coord?.output();
+    if (coordinate) {
+      this.coord = { output: () => coordinate } as ICoordinate;
+    }
     // the elements rendered progressively have no exit animation, and no more of them will be rendered
     this.clearProgressive();
   }
-- 
2.43.0


From 201ed7e0a2f95b2e2e1ee6713ccd39b985344619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 124/168] fix: reused elements kept the states of the former
 specification

---
 packages/vgrammar-core/src/view/mark.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index a05de7f..118eb21 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -175,7 +175,12 @@ export class Mark extends GrammarBase implements IMark {
 
     this.elementMap = mark.elementMap;
     this.elements = mark.elements;
-    this.elementMap.forEach(element => (element.mark = this));
+    this.elementMap.forEach(element => {
+      element.mark = this;
+      // the states belong to the former specification
+      (element as Element).states = [];
+      (element as Element).runtimeStatesEncoder = null;
+    });
 
     this.differ = mark.differ;
 
-- 
2.43.0


From d5e261d493f545fa7730d8e89c4bdbb23780f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 125/168] fix: a mark moved to another group kept being placed
 as if it still were in the former one

---
 packages/vgrammar-core/src/view/mark.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/view/mark.ts b/packages/vgrammar-core/src/view/mark.ts
index 118eb21..7ba14cc 100644
--- a/packages/vgrammar-core/src/view/mark.ts
+++ b/packages/vgrammar-core/src/view/mark.ts
@@ -666,6 +666,8 @@ export class Mark extends GrammarBase implements IMark {
           groupGraphicItem.removeChild(this.graphicItem as any);
         }
         groupGraphicItem.insertIntoKeepIdx(this.graphicItem, markIndex);
+        // the position inherited from the former parent does not hold any longer
+        this.graphicItem.addUpdateGlobalPositionTag();
       }
     } else {
       this.graphicParent = groupGraphicItem;
-- 
2.43.0


From 26543bba4e5ae509fdcff66aab47d7ea962600dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 126/168] fix: removing a mark took over a live mark with the
 same morph key

---
 packages/vgrammar-core/src/view/View.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index f9d0907..0ed6b27 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -932,7 +932,8 @@ export default class View extends EventEmitter implements IView {
 
     const diffedMark = this._differ.diffMark(
       this._cachedGrammars.getAllMarks(),
-      this.grammars.getAllMarks().filter(mark => mark.id() !== 'root'),
+      // only marks which were not shown before can take over the removed ones
+      this.grammars.getAllMarks().filter(mark => mark.id() !== 'root' && !mark.graphicItem),
       runningConfig
     );
     diffedMark.update.forEach(diff => {
-- 
2.43.0


From a08e44395b4df079a70e6f28a320ff9e3191283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 127/168] fix: marks never animated again after a morph whose
 transitions did not all start, or were stopped

---
 .../src/graph/animation/morph.ts              | 79 +++++++++++++------
 1 file changed, 56 insertions(+), 23 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/animation/morph.ts b/packages/vgrammar-core/src/graph/animation/morph.ts
index 030d5e0..d110808 100644
--- a/packages/vgrammar-core/src/graph/animation/morph.ts
+++ b/packages/vgrammar-core/src/graph/animation/morph.ts
@@ -5,13 +5,31 @@ import type { MorphData, MorphElements } from '../../types/morph';
 import { invokeFunctionType, parseField } from '../../parse/util';
 import { diffMultiple } from '../mark/differ';
 
-const doMorph = (
-  prev: IElement[],
-  next: IElement[],
-  runningConfig: IRunningConfig,
-  onEnd: () => void,
-  parameters: any
-) => {
+const getMorphAnimates = (elements: IElement[]) => {
+  const animates: any[] = [];
+  const collect = (graphic: any) => graphic?.animates?.forEach?.((animate: any) => animates.push(animate));
+
+  elements.forEach(element => {
+    const graphicItem = element.getGraphicItem() as any;
+    collect(graphicItem);
+    // pieces of splitted graphic item
+    graphicItem?.shadowRoot?.forEachChildren?.(collect);
+  });
+  return animates;
+};
+
+const isMorphable = (element: IElement) => {
+  const graphicItem = element.getGraphicItem() as any;
+  return !!(graphicItem && graphicItem.toCustomPath && graphicItem.valid);
+};
+
+/**
+ * @returns animates of the transition, empty if there's nothing to morph
+ */
+const doMorph = (prevElements: IElement[], nextElements: IElement[], runningConfig: IRunningConfig, parameters: any) => {
+  const prev = prevElements.filter(isMorphable);
+  const next = nextElements.filter(isMorphable);
+  const currentAnimates = getMorphAnimates(next);
   const morphData: MorphData = {
     prev: prev.map(element => element.getDatum()),
     next: next.map(element => element.getDatum())
@@ -39,20 +57,25 @@ const doMorph = (
 
   // if no previous item, still execute morph animation
   if ((prev.length === 1 || prev.length === 0) && next.length === 1) {
-    morphPath(prev[0]?.getGraphicItem?.(), next[0].getGraphicItem(), { delay, duration, easing, onEnd });
+    morphPath(prev[0]?.getGraphicItem?.(), next[0].getGraphicItem(), { delay, duration, easing });
+  } else if (prev.length === 0) {
+    next.forEach(element => {
+      morphPath(null, element.getGraphicItem(), { delay, duration, easing });
+    });
   } else if (prev.length === 1 && next.length > 1) {
     oneToMultiMorph(
       prev[0].getGraphicItem(),
       next.map(element => element.getGraphicItem()),
-      { delay, duration, easing, onEnd, individualDelay, splitPath }
+      { delay, duration, easing, individualDelay, splitPath }
     );
   } else if (prev.length > 1 && next.length === 1) {
     multiToOneMorph(
       prev.map(element => element.getGraphicItem()),
       next[0].getGraphicItem(),
-      { delay, duration, easing, onEnd, individualDelay, splitPath }
+      { delay, duration, easing, individualDelay, splitPath }
     );
   }
+  return getMorphAnimates(next).filter(animate => !currentAnimates.includes(animate));
 };
 
 const divideElements = (elements: IElement[], count: number) => {
@@ -100,29 +123,39 @@ export const morph = (prevMarks: IMark[], nextMarks: IMark[], runningConfig: IRu
     return parameters;
   }, {});
 
-  let morphCount = 0;
-  const onMorphEnd = () => {
-    morphCount -= 1;
-    if (morphCount === 0) {
-      nextMarks.forEach(mark => {
-        mark.animate?.enable?.();
-      });
-    }
-  };
+  let animates: any[] = [];
   // no animation for exit result
   diffResult.enter.forEach(diff => {
     diff.next.forEach(element => {
-      doMorph([], [element], runningConfig, onMorphEnd, parameters);
+      animates = animates.concat(doMorph([], [element], runningConfig, parameters));
     });
-    morphCount += 1;
   });
   diffResult.update.forEach(diff => {
     const divideCount = Math.min(diff.prev.length, diff.next.length);
     const prevDivide = divideElements(diff.prev, divideCount);
     const nextDivide = divideElements(diff.next, divideCount);
     for (let i = 0; i < divideCount; i++) {
-      doMorph(prevDivide[i], nextDivide[i], runningConfig, onMorphEnd, parameters);
-      morphCount += 1;
+      animates = animates.concat(doMorph(prevDivide[i], nextDivide[i], runningConfig, parameters));
     }
   });
+
+  // enable normal animations of next marks once all the transitions are finished or stopped
+  const runningAnimates = new Set(animates);
+  const enableAnimates = () => {
+    if (runningAnimates.size === 0) {
+      nextMarks.forEach(mark => {
+        mark.animate?.enable?.();
+      });
+    }
+  };
+  animates.forEach(animate => {
+    const onMorphEnd = () => {
+      if (runningAnimates.delete(animate)) {
+        enableAnimates();
+      }
+    };
+    animate.onEnd(onMorphEnd);
+    animate.onRemove(onMorphEnd);
+  });
+  enableAnimates();
 };
-- 
2.43.0


From e8c8f9ca11d168e1e376bfd92dacbfbe16d126d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 128/168] fix: morph animations with oneByOne: true all ran at
 once

---
 packages/vgrammar-core/src/graph/animation/morph.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/animation/morph.ts b/packages/vgrammar-core/src/graph/animation/morph.ts
index d110808..6bb68ce 100644
--- a/packages/vgrammar-core/src/graph/animation/morph.ts
+++ b/packages/vgrammar-core/src/graph/animation/morph.ts
@@ -44,7 +44,7 @@ const doMorph = (prevElements: IElement[], nextElements: IElement[], runningConf
   const oneByOne = invokeFunctionType(runningConfig.animation.oneByOne, parameters, morphData, morphElements);
   const splitPath = invokeFunctionType(runningConfig.animation.splitPath, parameters, morphData, morphElements);
   const individualDelay =
-    isValidNumber(oneByOne) && (oneByOne as number) > 0
+    oneByOne === true || (isValidNumber(oneByOne) && (oneByOne as number) > 0)
       ? (index: number) => {
           if (isNumber(oneByOne)) {
             return index * (oneByOne as number);
-- 
2.43.0


From ed080c5d962e9850b4fe35a56d37fdd96f2f4264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 129/168] fix: glyphs in a coordinate were placed at NaN with
 all of their parts

---
 packages/vgrammar-core/src/graph/element.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/vgrammar-core/src/graph/element.ts b/packages/vgrammar-core/src/graph/element.ts
index 29a4742..d42043e 100644
--- a/packages/vgrammar-core/src/graph/element.ts
+++ b/packages/vgrammar-core/src/graph/element.ts
@@ -49,6 +49,8 @@ import type { IGraphic, ILine, IGraphicAttribute } from '@visactor/vrender-core'
 import { CustomPath2D } from '@visactor/vrender-core';
 import { invokeFunctionType, parseField } from '../parse/util';
 
+const PositionChannels = ['x', 'y', 'x1', 'y1', 'r', 'theta', 'r1', 'theta1'];
+
 export class Element implements IElement {
   mark: IMark;
 
@@ -317,6 +319,10 @@ export class Element implements IElement {
 
     items.forEach(item => {
       const nextAttrs = item.nextAttrs;
+      if (PositionChannels.every(channel => isNil(nextAttrs[channel]))) {
+        // no position to transform, such as parts of glyph which inherit the position
+        return;
+      }
       const convertedPoint: IPointLike = coord.convert(nextAttrs);
       Object.assign(nextAttrs, convertedPoint);
     });
-- 
2.43.0


From 8318c2800efdaacbda8a51a98f54dcaca32c99d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 130/168] fix: percentages of grid rows and columns were a
 hundred times too large

---
 packages/vgrammar-core/src/graph/layout/grid.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/layout/grid.ts b/packages/vgrammar-core/src/graph/layout/grid.ts
index 1bc1796..e902d18 100644
--- a/packages/vgrammar-core/src/graph/layout/grid.ts
+++ b/packages/vgrammar-core/src/graph/layout/grid.ts
@@ -1,5 +1,6 @@
 import type { IBounds } from '@visactor/vutils';
 import { Bounds, isValidNumber } from '@visactor/vutils';
+import { toPercent } from '@visactor/vgrammar-util';
 import type { IGroupMark, ILayoutOptions, IMark, MarkGridItemSpec, MarkGridContainerSpec } from '../../types';
 
 interface IGrid {
@@ -20,7 +21,7 @@ function parseTemplate(template: number | string | 'auto', total: number) {
   } else if (trimmedTemplate.endsWith('%')) {
     const percent = parseFloat(trimmedTemplate.substring(0, trimmedTemplate.length - 1));
     if (isValidNumber(percent)) {
-      return percent * total;
+      return toPercent(trimmedTemplate, total);
     }
     return 0;
   }
-- 
2.43.0


From ffeed811fad1a10bb3edbd72cb18360ef06e7d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 131/168] fix: automatic rows and columns of a grid left the
 space of one gap empty

---
 packages/vgrammar-core/src/graph/layout/grid.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/layout/grid.ts b/packages/vgrammar-core/src/graph/layout/grid.ts
index e902d18..1040cbc 100644
--- a/packages/vgrammar-core/src/graph/layout/grid.ts
+++ b/packages/vgrammar-core/src/graph/layout/grid.ts
@@ -39,11 +39,11 @@ function computeGrid(layout: MarkGridContainerSpec, width: number, height: numbe
   const columns = templateColumns.map(column => parseTemplate(column, width));
 
   // compute auto grid
-  const rowLeftSize = Math.max(0, rows.reduce((left, row) => left - row, height) - rows.length * rowGap);
+  const rowLeftSize = Math.max(0, rows.reduce((left, row) => left - row, height) - (rows.length - 1) * rowGap);
   const rowAuto = rowLeftSize / templateRows.filter(row => row === 'auto').length;
   const columnLeftSize = Math.max(
     0,
-    columns.reduce((left, column) => left - column, width) - columns.length * columnGap
+    columns.reduce((left, column) => left - column, width) - (columns.length - 1) * columnGap
   );
   const columnAuto = columnLeftSize / templateColumns.filter(column => column === 'auto').length;
   // accumulate grid size
-- 
2.43.0


From 635dc5f5f73c9df8a7ea6d19dd94931e089d8f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 132/168] fix: grid items with missing lines got no bounds or
 those of the second cell

---
 packages/vgrammar-core/src/graph/layout/grid.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/layout/grid.ts b/packages/vgrammar-core/src/graph/layout/grid.ts
index 1040cbc..64f5d80 100644
--- a/packages/vgrammar-core/src/graph/layout/grid.ts
+++ b/packages/vgrammar-core/src/graph/layout/grid.ts
@@ -79,13 +79,14 @@ function normalizeIndex(index: number, count: number) {
 function normalizeStartEndIndex(start: number, end: number, count: number) {
   let finalStart = normalizeIndex(start, count);
   let finalEnd = normalizeIndex(end, count);
+  // an item covers one cell when one of its lines is missing, the first cell when both are missing
   if (!isValidNumber(start) && !isValidNumber(end)) {
-    finalStart = 1;
-    finalEnd = 2;
+    finalStart = 0;
+    finalEnd = 1;
   } else if (!isValidNumber(start)) {
-    finalEnd = normalizeIndex(finalStart + 1, count);
+    finalStart = Math.max(0, finalEnd - 1);
   } else if (!isValidNumber(end)) {
-    finalStart = normalizeIndex(Math.max(0, finalEnd - 1), count);
+    finalEnd = Math.min(finalStart + 1, count - 1);
   }
   if (finalStart > finalEnd) {
     const temp = finalEnd;
-- 
2.43.0


From 90baa6c4de6e64c7203e5f0c948c875b7fcb1b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 133/168] fix: the maximum height of relative children was
 taken of the width of their container

---
 packages/vgrammar-core/src/graph/layout/relative.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/layout/relative.ts b/packages/vgrammar-core/src/graph/layout/relative.ts
index edb4c49..8ae9508 100644
--- a/packages/vgrammar-core/src/graph/layout/relative.ts
+++ b/packages/vgrammar-core/src/graph/layout/relative.ts
@@ -37,7 +37,7 @@ export const doRelativeLayout = (
   const viewBounds = parentLayoutBounds.clone();
   const groupLayoutSpec = group.getSpec().layout as MarkRelativeContainerSpec;
   const maxChildWidth = toPercent(groupLayoutSpec.maxChildWidth, viewBounds.width());
-  const maxChildHeight = toPercent(groupLayoutSpec.maxChildHeight, viewBounds.width());
+  const maxChildHeight = toPercent(groupLayoutSpec.maxChildHeight, viewBounds.height());
   let minDeltaX1 = 0;
   let minDeltaX2 = 0;
   let minDeltaY1 = 0;
-- 
2.43.0


From 668cf2529fbb6620dcd034bb17e0f81a54e3cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 134/168] fix: whether children at the left and right are
 aligned depended on their width

---
 packages/vgrammar-core/src/graph/layout/relative.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/layout/relative.ts b/packages/vgrammar-core/src/graph/layout/relative.ts
index 8ae9508..4965ff1 100644
--- a/packages/vgrammar-core/src/graph/layout/relative.ts
+++ b/packages/vgrammar-core/src/graph/layout/relative.ts
@@ -178,7 +178,7 @@ export const doRelativeLayout = (
       if (layoutSpec.align) {
         const childHeight = bounds.height() + padding.top + padding.bottom;
 
-        if (childWidth < viewBounds.width()) {
+        if (childHeight < viewBounds.height()) {
           if (layoutSpec.align === 'middle') {
             child.layoutBounds.y1 = (viewBounds.y1 + viewBounds.y2) / 2 - childHeight / 2;
             child.layoutBounds.y2 = child.layoutBounds.y1 + childHeight;
-- 
2.43.0


From d6a100655e621bdf1f0ba566dc166320d7b2b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 135/168] fix: a child outside of the content which ends above
 the bottom pushed the content out of its container

---
 packages/vgrammar-core/src/graph/layout/relative.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/layout/relative.ts b/packages/vgrammar-core/src/graph/layout/relative.ts
index 4965ff1..e23057e 100644
--- a/packages/vgrammar-core/src/graph/layout/relative.ts
+++ b/packages/vgrammar-core/src/graph/layout/relative.ts
@@ -88,7 +88,7 @@ export const doRelativeLayout = (
       viewBounds.x1 += Math.max(parentLayoutBounds.x1 - bounds.x1, 0) + padding.left;
       viewBounds.x2 -= Math.max(bounds.x2 - parentLayoutBounds.x2, 0) + padding.right;
       viewBounds.y1 += Math.max(parentLayoutBounds.y1 - bounds.y1, 0) + padding.top;
-      viewBounds.y2 -= Math.max(bounds.y2 - parentLayoutBounds.y2) + padding.bottom;
+      viewBounds.y2 -= Math.max(bounds.y2 - parentLayoutBounds.y2, 0) + padding.bottom;
     }
   });
 
@@ -200,7 +200,7 @@ export const doRelativeLayout = (
       curLeftX -= Math.max(parentLayoutBounds.x1 - bounds.x1, 0) + padding.left;
       curRightX -= Math.max(bounds.x2 - parentLayoutBounds.x2, 0) + padding.right;
       curTopY -= Math.max(parentLayoutBounds.y1 - bounds.y1, 0) + padding.top;
-      curBottomY += Math.max(bounds.y2 - parentLayoutBounds.y2) + padding.bottom;
+      curBottomY += Math.max(bounds.y2 - parentLayoutBounds.y2, 0) + padding.bottom;
     } else {
       child.layoutBounds = viewBounds;
     }
-- 
2.43.0


From bc3c225eed0d2115d9a93d407a06a82e031d9cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 136/168] fix: running the layout again with updateViewSignals
 shrank the content every time

---
 .../vgrammar-core/src/graph/layout/layout.ts  | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/packages/vgrammar-core/src/graph/layout/layout.ts b/packages/vgrammar-core/src/graph/layout/layout.ts
index 559ee99..3698cbd 100644
--- a/packages/vgrammar-core/src/graph/layout/layout.ts
+++ b/packages/vgrammar-core/src/graph/layout/layout.ts
@@ -1,4 +1,4 @@
-import { isFunction } from '@visactor/vutils';
+import { Bounds, isFunction } from '@visactor/vutils';
 import { SIGNAL_VIEW_HEIGHT, SIGNAL_PADDING, SIGNAL_VIEW_WIDTH } from './../../view/constants';
 import type { MarkRelativeContainerSpec, MarkGridContainerSpec } from './../../types/mark';
 import { GrammarMarkType } from '../enums';
@@ -7,6 +7,10 @@ import type { ILayoutOptions, IView } from '../../types/view';
 import { doGridLayout } from './grid';
 import { doRelativeLayout } from './relative';
 import { Factory } from '../../core/factory';
+import { normalizePadding } from '../../parse/view';
+
+/** padding set by users and by the last layout of each view */
+const layoutPaddings: WeakMap<IView, { user: any; layout: any }> = new WeakMap();
 
 export const defaultDoLayout = (layoutMarks: IMark[], options: ILayoutOptions, view: IView) => {
   layoutMarks?.forEach(mark => {
@@ -34,13 +38,18 @@ export const defaultDoLayout = (layoutMarks: IMark[], options: ILayoutOptions, v
       layoutSpec.callback.call(null, mark as IGroupMark, layoutChildren, bounds, options);
     } else if ((layoutSpec as MarkRelativeContainerSpec).display === 'relative') {
       if (layoutSpec.updateViewSignals) {
-        const oldViewBox = view.getViewBox();
+        // the padding set by the former layout is not a limit of this layout, only the padding set by users is
+        const currentPadding = view.getSignalById(SIGNAL_PADDING)?.output();
+        const lastPaddings = layoutPaddings.get(view);
+        const userPadding = lastPaddings && lastPaddings.layout === currentPadding ? lastPaddings.user : currentPadding;
+        const layoutBounds = bounds.clone();
 
-        if (oldViewBox) {
-          bounds.intersect(oldViewBox);
+        if (userPadding) {
+          const { top, right, bottom, left } = normalizePadding(userPadding as any);
+          layoutBounds.intersect(new Bounds().set(left, top, view.width() - right, view.height() - bottom));
         }
 
-        const viewBounds = doRelativeLayout(mark as IGroupMark, layoutChildren, bounds, options);
+        const viewBounds = doRelativeLayout(mark as IGroupMark, layoutChildren, layoutBounds, options);
         const viewWidth = viewBounds.width();
         const viewHeight = viewBounds.height();
         const padding = {
@@ -52,6 +61,7 @@ export const defaultDoLayout = (layoutMarks: IMark[], options: ILayoutOptions, v
         (view as any).updateSignal(SIGNAL_VIEW_WIDTH, viewWidth);
         (view as any).updateSignal(SIGNAL_VIEW_HEIGHT, viewHeight);
         (view as any).updateSignal(SIGNAL_PADDING, padding);
+        layoutPaddings.set(view, { user: userPadding, layout: padding });
       } else {
         doRelativeLayout(mark as IGroupMark, layoutChildren, bounds, options);
       }
-- 
2.43.0


From b8e9a931180414f224edf5e30074f3b8480a0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 137/168] fix: marks in a relative layout were not encoded with
 their layout bounds until something else changed

---
 packages/vgrammar-core/src/graph/layout/relative.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-core/src/graph/layout/relative.ts b/packages/vgrammar-core/src/graph/layout/relative.ts
index e23057e..56d6de4 100644
--- a/packages/vgrammar-core/src/graph/layout/relative.ts
+++ b/packages/vgrammar-core/src/graph/layout/relative.ts
@@ -204,6 +204,8 @@ export const doRelativeLayout = (
     } else {
       child.layoutBounds = viewBounds;
     }
+    // encode with the new layout bounds
+    child.commit();
   }
 
   return viewBounds;
-- 
2.43.0


From 94c0d3f656dd86b813702810a0524c74f5531fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 138/168] fix: the layout set on marks after they were added,
 or the removal of the last child, was ignored; containers in groups without
 ids could be skipped

---
 packages/vgrammar-core/src/view/View.ts  | 9 +++++----
 packages/vgrammar-core/src/view/group.ts | 7 -------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index 0ed6b27..ad92d33 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -742,15 +742,15 @@ export default class View extends EventEmitter implements IView {
   }
 
   private buildLayoutTree() {
-    const markMap: Record<number, boolean> = {};
+    const markMap: Record<string, boolean> = {};
     const rootMarks: IMark[] = [];
 
     this.traverseMarkTree(
       (mark: IMark) => {
-        markMap[mark.id()] = true;
+        markMap[mark.uid] = true;
 
         if (mark.group) {
-          if (!markMap[mark.group.id()]) {
+          if (!markMap[mark.group.uid]) {
             rootMarks.push(mark);
           }
         } else {
@@ -862,7 +862,8 @@ export default class View extends EventEmitter implements IView {
     // evaluate dataflow
     this._dataflow.evaluate();
 
-    if (this._needBuildLayoutTree) {
+    // the layout of marks might be configured after they are added
+    if (this._needBuildLayoutTree || this._layoutState) {
       this.buildLayoutTree();
       this._needBuildLayoutTree = false;
     }
diff --git a/packages/vgrammar-core/src/view/group.ts b/packages/vgrammar-core/src/view/group.ts
index 91bf370..06f4ded 100644
--- a/packages/vgrammar-core/src/view/group.ts
+++ b/packages/vgrammar-core/src/view/group.ts
@@ -47,13 +47,6 @@ export class GroupMark extends Mark implements IGroupMark {
   }
 
   updateLayoutChildren() {
-    if (!this.children.length) {
-      return this;
-    }
-    if (!this.layoutChildren) {
-      this.layoutChildren = [];
-    }
-
     this.layoutChildren = this.children.filter(child => child.needLayout());
 
     return this;
-- 
2.43.0


From c8da30e1fe66b8ca1bbfe2c2d14e1994ece8a410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 139/168] fix: children on the right were placed inside the
 content after a child outside the container

---
 packages/vgrammar-core/src/graph/layout/relative.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/graph/layout/relative.ts b/packages/vgrammar-core/src/graph/layout/relative.ts
index 56d6de4..b94894c 100644
--- a/packages/vgrammar-core/src/graph/layout/relative.ts
+++ b/packages/vgrammar-core/src/graph/layout/relative.ts
@@ -198,7 +198,7 @@ export const doRelativeLayout = (
       }
     } else if (layoutSpec.position === 'outside') {
       curLeftX -= Math.max(parentLayoutBounds.x1 - bounds.x1, 0) + padding.left;
-      curRightX -= Math.max(bounds.x2 - parentLayoutBounds.x2, 0) + padding.right;
+      curRightX += Math.max(bounds.x2 - parentLayoutBounds.x2, 0) + padding.right;
       curTopY -= Math.max(parentLayoutBounds.y1 - bounds.y1, 0) + padding.top;
       curBottomY += Math.max(bounds.y2 - parentLayoutBounds.y2, 0) + padding.bottom;
     } else {
-- 
2.43.0


From 4e03d01fb8590d4043b3db5bbcbd54595426ab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 140/168] fix: a label that skips the theme, or a label in a
 view without theme, threw

---
 packages/vgrammar-core/src/component/label.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/component/label.ts b/packages/vgrammar-core/src/component/label.ts
index ecd04a2..498b5be 100644
--- a/packages/vgrammar-core/src/component/label.ts
+++ b/packages/vgrammar-core/src/component/label.ts
@@ -27,14 +27,14 @@ export const generateLabelAttributes = (
   encoder: BaseSingleEncodeSpec,
   labelStyle: MarkFunctionType<Partial<BaseLabelAttrs>>,
   parameters: any,
-  theme: ITheme = {}
+  theme?: ITheme
 ): DataLabelAttrs => {
-  const labelTheme = theme.components?.dataLabel;
+  const labelTheme = theme?.components?.dataLabel;
   const dataLabels = marks
     .map((mark, index) => {
       const labelParameters = { ...parameters, labelIndex: index };
       const addition = invokeFunctionType(labelStyle, labelParameters, mark) ?? {};
-      const { components = {} } = theme;
+      const { components = {} } = theme ?? ({} as ITheme);
       let currentTheme: any = {};
 
       switch (mark.markType) {
-- 
2.43.0


From e163b60ab6357ec298faeb62e8d32958d8c6f87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 141/168] fix: a specification brought the theme back which the
 view was told to do without

---
 packages/vgrammar-core/src/view/View.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/View.ts b/packages/vgrammar-core/src/view/View.ts
index ad92d33..c993193 100644
--- a/packages/vgrammar-core/src/view/View.ts
+++ b/packages/vgrammar-core/src/view/View.ts
@@ -464,7 +464,7 @@ export default class View extends EventEmitter implements IView {
     if (spec.theme) {
       this.theme(spec.theme);
     } else {
-      this.theme(ThemeManager.getDefaultTheme());
+      this.theme(this._options.disableTheme ? null : ThemeManager.getDefaultTheme());
     }
 
     if (spec.width) {
@@ -475,7 +475,7 @@ export default class View extends EventEmitter implements IView {
       this.height(spec.height);
     }
 
-    this.padding(spec.padding ?? this._options.padding ?? this._theme.padding);
+    this.padding(spec.padding ?? this._options.padding ?? this._theme?.padding);
 
     if (!this.width() || !this.height()) {
       const size = this._getContainerSize();
-- 
2.43.0


From 57f4ff6015f2841c80b8020b2da16bcd70cc520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 142/168] fix: an axis without tick count removed the tick
 count of its scale

---
 packages/vgrammar-core/src/component/axis.ts | 3 ++-
 packages/vgrammar-core/src/component/grid.ts | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-core/src/component/axis.ts b/packages/vgrammar-core/src/component/axis.ts
index 4143ddc..ae272e0 100644
--- a/packages/vgrammar-core/src/component/axis.ts
+++ b/packages/vgrammar-core/src/component/axis.ts
@@ -173,7 +173,8 @@ export class Axis extends ScaleComponent implements IAxis {
   tickCount(tickCount: SimpleSignalType<number> | Nil) {
     const scaleGrammar = isString(this.spec.scale) ? this.view.getScaleById(this.spec.scale) : this.spec.scale;
 
-    if (scaleGrammar) {
+    // keep the tick count of the scale, or of another component of it, unless this component declares one
+    if (scaleGrammar && !(isNil(tickCount) && isNil(this.spec.tickCount))) {
       scaleGrammar.tickCount(tickCount);
     }
 
diff --git a/packages/vgrammar-core/src/component/grid.ts b/packages/vgrammar-core/src/component/grid.ts
index f35cf9a..c1f303b 100644
--- a/packages/vgrammar-core/src/component/grid.ts
+++ b/packages/vgrammar-core/src/component/grid.ts
@@ -1,4 +1,4 @@
-import { isString, merge } from '@visactor/vutils';
+import { isNil, isString, merge } from '@visactor/vutils';
 import type { IGraphic } from '@visactor/vrender-core';
 import type { CircleAxisGridAttributes, ComponentOptions, LineAxisGridAttributes } from '@visactor/vrender-components';
 // eslint-disable-next-line no-duplicate-imports
@@ -135,7 +135,8 @@ export class Grid extends ScaleComponent implements IGrid {
   tickCount(tickCount: SimpleSignalType<number> | Nil) {
     const scaleGrammar = isString(this.spec.scale) ? this.view.getScaleById(this.spec.scale) : this.spec.scale;
 
-    if (scaleGrammar) {
+    // keep the tick count of the scale, or of another component of it, unless this component declares one
+    if (scaleGrammar && !(isNil(tickCount) && isNil(this.spec.tickCount))) {
       scaleGrammar.tickCount(tickCount);
     }
 
-- 
2.43.0


From 1c96a2ed63db957aba9439b0b9e72bca00f79e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 143/168] fix: signals in the tick count, inside or base value
 of a declared grid were ignored

---
 packages/vgrammar-core/src/component/grid.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vgrammar-core/src/component/grid.ts b/packages/vgrammar-core/src/component/grid.ts
index c1f303b..68a3c43 100644
--- a/packages/vgrammar-core/src/component/grid.ts
+++ b/packages/vgrammar-core/src/component/grid.ts
@@ -86,6 +86,9 @@ export class Grid extends ScaleComponent implements IGrid {
     this.target(spec.target);
     this.gridType(spec.gridType);
     this.gridShape(spec.gridShape);
+    this.tickCount(spec.tickCount as SimpleSignalType<number>);
+    this.inside(spec.inside);
+    this.baseValue(spec.baseValue);
     return this;
   }
 
-- 
2.43.0


From 220baf76eb938df7916d69d9fa2bce0734026cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 144/168] fix: axes, grids and legends kept their kind of
 graphic when the scale came to need another one

---
 packages/vgrammar-core/src/component/axis.ts  |  5 +++++
 packages/vgrammar-core/src/component/grid.ts  |  5 +++++
 .../vgrammar-core/src/component/legend.ts     |  5 +++++
 packages/vgrammar-core/src/component/scale.ts | 19 ++++++++++++++++++-
 4 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/component/axis.ts b/packages/vgrammar-core/src/component/axis.ts
index ae272e0..25008ab 100644
--- a/packages/vgrammar-core/src/component/axis.ts
+++ b/packages/vgrammar-core/src/component/axis.ts
@@ -238,6 +238,11 @@ export class Axis extends ScaleComponent implements IAxis {
     this._encoders = componentEncoders;
   }
 
+  protected _resolveGraphicType() {
+    this._axisComponentType = null;
+    return this._getAxisComponentType();
+  }
+
   private _getAxisComponentType() {
     if (this._axisComponentType) {
       return this._axisComponentType;
diff --git a/packages/vgrammar-core/src/component/grid.ts b/packages/vgrammar-core/src/component/grid.ts
index 68a3c43..f001126 100644
--- a/packages/vgrammar-core/src/component/grid.ts
+++ b/packages/vgrammar-core/src/component/grid.ts
@@ -270,6 +270,11 @@ export class Grid extends ScaleComponent implements IGrid {
     this._encoders = componentEncoders;
   }
 
+  protected _resolveGraphicType() {
+    this._gridComponentType = null;
+    return this._getGridComponentType();
+  }
+
   private _getGridComponentType() {
     if (this._gridComponentType) {
       return this._gridComponentType;
diff --git a/packages/vgrammar-core/src/component/legend.ts b/packages/vgrammar-core/src/component/legend.ts
index bba1122..0890a3d 100644
--- a/packages/vgrammar-core/src/component/legend.ts
+++ b/packages/vgrammar-core/src/component/legend.ts
@@ -194,6 +194,11 @@ export class Legend extends ScaleComponent implements ILegend {
     this._encoders = componentEncoders;
   }
 
+  protected _resolveGraphicType() {
+    this._legendComponentType = null;
+    return this._getLegendComponentType();
+  }
+
   private _getLegendComponentType() {
     if (this._legendComponentType) {
       return this._legendComponentType;
diff --git a/packages/vgrammar-core/src/component/scale.ts b/packages/vgrammar-core/src/component/scale.ts
index ea1284f..6f5822d 100644
--- a/packages/vgrammar-core/src/component/scale.ts
+++ b/packages/vgrammar-core/src/component/scale.ts
@@ -1,4 +1,4 @@
-import { isString } from '@visactor/vutils';
+import { isNil, isString } from '@visactor/vutils';
 import type { IScale, Nil } from '../types';
 import type { IScaleComponent, ScaleComponentSpec } from '../types/component';
 import { Component } from '../view/component';
@@ -6,6 +6,8 @@ import { Component } from '../view/component';
 export abstract class ScaleComponent extends Component implements IScaleComponent {
   protected declare spec: ScaleComponentSpec;
 
+  private _lastGraphicType: string;
+
   protected parseAddition(spec: ScaleComponentSpec) {
     super.parseAddition(spec);
     this.scale(spec.scale);
@@ -28,6 +30,21 @@ export abstract class ScaleComponent extends Component implements IScaleComponen
     return this;
   }
 
+  /** resolve the type of the graphic component again, it might change along with the scale */
+  protected _resolveGraphicType(): string {
+    return this.componentType;
+  }
+
+  protected evaluateJoin(data: any[]) {
+    const graphicType = this._resolveGraphicType();
+    if (!isNil(this._lastGraphicType) && this._lastGraphicType !== graphicType) {
+      // the graphic component is created again when its type is changed
+      this._prepareRejoin();
+    }
+    this._lastGraphicType = graphicType;
+    return super.evaluateJoin(data);
+  }
+
   getScale() {
     return isString(this.spec.scale) ? this.view.getScaleById(this.spec.scale) : this.spec.scale;
   }
-- 
2.43.0


From 199a952c145811fe984eb20a45fa1956bc0d5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 145/168] fix: an axis or a grid whose tick count was reset to
 null had no ticks

---
 packages/vgrammar-core/src/component/axis.ts | 4 ++--
 packages/vgrammar-core/src/component/grid.ts | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/component/axis.ts b/packages/vgrammar-core/src/component/axis.ts
index 25008ab..336dcf7 100644
--- a/packages/vgrammar-core/src/component/axis.ts
+++ b/packages/vgrammar-core/src/component/axis.ts
@@ -36,7 +36,7 @@ export const generateLineAxisAttributes = (
   if (!scale) {
     return merge({}, axisTheme, addition ?? {});
   }
-  const tickData = scale.tickData?.(tickCount) ?? [];
+  const tickData = scale.tickData?.(tickCount ?? undefined) ?? [];
 
   const items = [
     tickData.map(tick => ({
@@ -59,7 +59,7 @@ export const generateCircleAxisAttributes = (
   if (!scale) {
     return merge({}, axisTheme, addition ?? {});
   }
-  const tickData = scale.tickData?.(tickCount) ?? [];
+  const tickData = scale.tickData?.(tickCount ?? undefined) ?? [];
   const items = [
     tickData.map(tick => ({
       id: tick.index,
diff --git a/packages/vgrammar-core/src/component/grid.ts b/packages/vgrammar-core/src/component/grid.ts
index f001126..d1dffff 100644
--- a/packages/vgrammar-core/src/component/grid.ts
+++ b/packages/vgrammar-core/src/component/grid.ts
@@ -36,7 +36,7 @@ export const generateLineAxisGridAttributes = (
   if (!scale) {
     return merge({}, gridTheme, addition ?? {});
   }
-  const tickData = scale.tickData?.(tickCount) ?? [];
+  const tickData = scale.tickData?.(tickCount ?? undefined) ?? [];
   const items = tickData.map(tick => ({
     id: tick.index,
     label: tick.tick,
@@ -56,7 +56,7 @@ export const generateCircleAxisGridAttributes = (
   if (!scale) {
     return merge({}, gridTheme, addition ?? {});
   }
-  const tickData = scale.tickData?.(tickCount) ?? [];
+  const tickData = scale.tickData?.(tickCount ?? undefined) ?? [];
   const items = tickData.map(tick => ({
     id: tick.index,
     label: tick.tick,
-- 
2.43.0


From 50b8873a7791b858d3ae851ef5067f44c5e32269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 146/168] fix: the preview of a datazoom kept its first data

---
 packages/vgrammar-core/src/component/datazoom.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/vgrammar-core/src/component/datazoom.ts b/packages/vgrammar-core/src/component/datazoom.ts
index ad2feb0..1d661bb 100644
--- a/packages/vgrammar-core/src/component/datazoom.ts
+++ b/packages/vgrammar-core/src/component/datazoom.ts
@@ -143,6 +143,11 @@ export class Datazoom extends Component implements IDatazoom {
               attributes.start = addition?.start ?? selected.start;
               attributes.end = addition?.end ?? selected.end;
             }
+            // the component only reads the preview data when it is created
+            const datazoom = this.getGroupGraphicItem() as unknown as DatazoomComponent;
+            if (attributes.previewData) {
+              datazoom?.setPreviewData?.(attributes.previewData);
+            }
             return attributes;
           }
         };
-- 
2.43.0


From 417321b45ac4c26bf3f32d2c56bb409797d1a23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 147/168] fix: a legend kept the shapes of its former shape
 scale

---
 packages/vgrammar-core/src/component/legend.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vgrammar-core/src/component/legend.ts b/packages/vgrammar-core/src/component/legend.ts
index 0890a3d..fa7ec3d 100644
--- a/packages/vgrammar-core/src/component/legend.ts
+++ b/packages/vgrammar-core/src/component/legend.ts
@@ -130,6 +130,7 @@ export class Legend extends ScaleComponent implements ILegend {
     const scaleGrammar = isString(shapeScale) ? this.view.getScaleById(shapeScale) : shapeScale;
     this.spec.shapeScale = scaleGrammar;
     this.attach(scaleGrammar);
+    this._updateComponentEncoders();
 
     this.commit();
     return this;
-- 
2.43.0


From ea0adc6aeea35200f2e50b5b0c707f64a391a906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 148/168] fix: a grid whose shape was set back to line kept the
 closed lines of its former shape

---
 packages/vgrammar-core/src/component/grid.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/component/grid.ts b/packages/vgrammar-core/src/component/grid.ts
index d1dffff..6a4bb1e 100644
--- a/packages/vgrammar-core/src/component/grid.ts
+++ b/packages/vgrammar-core/src/component/grid.ts
@@ -238,8 +238,10 @@ export class Grid extends ScaleComponent implements IGrid {
             // compute addition shape attributes for line grid
             if (this._getGridComponentType() === GridEnum.lineAxisGrid) {
               if (this.spec.gridShape === 'line' || !this.spec.gridShape) {
-                // set axis type
-                addition = Object.assign({}, addition, { type: 'line' });
+                // set axis type, lines closed by a former shape are opened again
+                addition = Object.assign(element.getGraphicAttribute('closed', false) ? { closed: false } : {}, addition, {
+                  type: 'line'
+                });
               } else {
                 // set addition length & axis type
                 addition = Object.assign(
-- 
2.43.0


From e2469d30665aef0d6e3944d9cc24988e98f01d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 149/168] fix: the preview of a datazoom was drawn with the
 scales it had when it was created

---
 packages/vgrammar-core/src/component/datazoom.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/component/datazoom.ts b/packages/vgrammar-core/src/component/datazoom.ts
index 1d661bb..a57d8ff 100644
--- a/packages/vgrammar-core/src/component/datazoom.ts
+++ b/packages/vgrammar-core/src/component/datazoom.ts
@@ -188,8 +188,8 @@ export class Datazoom extends Component implements IDatazoom {
     });
 
     // set preview callbacks
-    const { data, x, y, x1, y1 } = this.spec.preview ?? {};
     datazoom.setPreviewPointsX((datum: any) => {
+      const { data, x } = this.spec.preview ?? {};
       if (x && data) {
         return invokeEncoder({ x }, datum, this.elements[0], this.parameters()).x;
       }
@@ -197,6 +197,7 @@ export class Datazoom extends Component implements IDatazoom {
       return undefined;
     });
     datazoom.setPreviewPointsY((datum: any) => {
+      const { data, y } = this.spec.preview ?? {};
       if (y && data) {
         return invokeEncoder({ y }, datum, this.elements[0], this.parameters()).y;
       }
@@ -204,6 +205,7 @@ export class Datazoom extends Component implements IDatazoom {
       return undefined;
     });
     datazoom.setPreviewPointsX1((datum: any) => {
+      const { data, x1 } = this.spec.preview ?? {};
       if (x1 && data) {
         return invokeEncoder({ x1 }, datum, this.elements[0], this.parameters()).x1;
       }
@@ -211,6 +213,7 @@ export class Datazoom extends Component implements IDatazoom {
       return undefined;
     });
     datazoom.setPreviewPointsY1((datum: any) => {
+      const { data, y1 } = this.spec.preview ?? {};
       if (y1 && data) {
         return invokeEncoder({ y1 }, datum, this.elements[0], this.parameters()).y1;
       }
-- 
2.43.0


From 94bc7d163bb33c145005d3efa9fb79a1f9ebe26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 150/168] fix: the items of a legend without colors shared one
 shape, that of the theme

---
 packages/vgrammar-core/src/component/legend.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/component/legend.ts b/packages/vgrammar-core/src/component/legend.ts
index fa7ec3d..17aad06 100644
--- a/packages/vgrammar-core/src/component/legend.ts
+++ b/packages/vgrammar-core/src/component/legend.ts
@@ -47,7 +47,7 @@ export const generateDiscreteLegendAttributes = (
           fill: color,
           stroke: color
         }
-      : legendTheme?.items?.[0]?.shape ?? {};
+      : { ...(legendTheme?.items?.[0]?.shape ?? {}) };
 
     if (shapeScale) {
       Object.assign(shape, { symbolType: shapeScale.scale(item) });
-- 
2.43.0


From 5b823b1736a7a9ec747ad036e582547ac917c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 151/168] fix: encoding a single channel of a component with
 clear kept its other channels

---
 packages/vgrammar-core/src/view/component.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/component.ts b/packages/vgrammar-core/src/view/component.ts
index 1116f63..22208b6 100644
--- a/packages/vgrammar-core/src/view/component.ts
+++ b/packages/vgrammar-core/src/view/component.ts
@@ -58,8 +58,13 @@ export class Component extends Mark implements IComponent {
     return super.join(data, DefaultKey);
   }
 
-  encodeState(state: string, channel: string | BaseSingleEncodeSpec, value?: MarkFunctionType<any>) {
-    super.encodeState(state, channel, value);
+  encodeState(
+    state: string,
+    channel: string | BaseSingleEncodeSpec,
+    value?: MarkFunctionType<any> | boolean,
+    clear?: boolean
+  ) {
+    super.encodeState(state, channel, value, clear);
     this._updateComponentEncoders();
     return this;
   }
-- 
2.43.0


From 0b677e8335324372e6fe4308f1a5e3987aa9c201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 152/168] fix: a rule of the plot API always failed

---
 packages/vgrammar-plot/src/rule.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-plot/src/rule.ts b/packages/vgrammar-plot/src/rule.ts
index a86679c..2809700 100644
--- a/packages/vgrammar-plot/src/rule.ts
+++ b/packages/vgrammar-plot/src/rule.ts
@@ -45,7 +45,7 @@ export class Rule extends SemanticMark<PlotRuleEncoderSpec, RuleEncodeChannels>
   ): GenerateBaseEncodeSpec<PlotRuleEncoderSpec> {
     const markEncoder = this.convertSimpleMarkEncode(encode);
 
-    let res: GenerateEncoderSpec<PlotRuleEncoderSpec>;
+    const res: GenerateEncoderSpec<PlotRuleEncoderSpec> = {};
 
     if (isArray(markEncoder.x?.field)) {
       res.x = { field: markEncoder.x.field[0], scale: markEncoder.x.scale };
-- 
2.43.0


From f5d1ee0075271f9f899b962cd9263fc8f2ca263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 153/168] fix: images of the plot API were placed vertically
 with the x scale

---
 packages/vgrammar-plot/src/image.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-plot/src/image.ts b/packages/vgrammar-plot/src/image.ts
index 315738a..a9241f8 100644
--- a/packages/vgrammar-plot/src/image.ts
+++ b/packages/vgrammar-plot/src/image.ts
@@ -111,7 +111,7 @@ export class ImageSemanticMark extends SemanticMark<PlotImageEncoderSpec, ImageE
       const yAccessor = getFieldAccessor(markEncoder.y.field);
 
       res.y = (datum: any, el: IElement, params: any) => {
-        const scale = params[scaleXId];
+        const scale = params[scaleYId];
 
         return scale.scale(yAccessor(datum)) - height / 2;
       };
-- 
2.43.0


From ddb655cf86c186044a21c027abd496fff463ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 154/168] fix: a path of the plot API always failed

---
 packages/vgrammar-plot/src/path.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-plot/src/path.ts b/packages/vgrammar-plot/src/path.ts
index e7a50a1..649c12a 100644
--- a/packages/vgrammar-plot/src/path.ts
+++ b/packages/vgrammar-plot/src/path.ts
@@ -39,6 +39,6 @@ export class PathSemanticMark extends SemanticMark<BasicEncoderSpecMap['path'],
     }
     res.fill = markEncoder.color ?? this.spec.style?.fill ?? this.getPalette()?.[0];
 
-    return null;
+    return res;
   }
 }
-- 
2.43.0


From d6956c65702890a01cb4d26735150fcde0947039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 155/168] fix: two marks of the plot API with a channel without
 a domain (two texts) failed

---
 packages/vgrammar-plot/src/plot.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/vgrammar-plot/src/plot.ts b/packages/vgrammar-plot/src/plot.ts
index 5064369..570f192 100644
--- a/packages/vgrammar-plot/src/plot.ts
+++ b/packages/vgrammar-plot/src/plot.ts
@@ -57,8 +57,8 @@ export class Plot implements IPlot {
 
         if (prevIndex >= 0) {
           const prevScale = res[prevIndex];
-          if ((scale.domain as ScaleData).data && (scale.domain as ScaleData).field) {
-            if ((prevScale.domain as ScaleData).data && (prevScale.domain as ScaleData).field) {
+          if ((scale.domain as ScaleData)?.data && (scale.domain as ScaleData).field) {
+            if ((prevScale.domain as ScaleData)?.data && (prevScale.domain as ScaleData).field) {
               if (
                 (scale.domain as ScaleData).data === (prevScale.domain as ScaleData).data &&
                 (scale.domain as ScaleData).field !== (prevScale.domain as ScaleData).field
@@ -78,7 +78,7 @@ export class Plot implements IPlot {
               if (!isNil((scale.domain as ScaleData).sort)) {
                 (prevScale.domain as ScaleData).sort = (scale.domain as ScaleData).sort;
               }
-            } else if ((prevScale.domain as MultiScaleData).datas) {
+            } else if ((prevScale.domain as MultiScaleData)?.datas) {
               const prevData = (prevScale.domain as MultiScaleData).datas.find(
                 entry => entry.data === (scale.domain as ScaleData).data
               );
-- 
2.43.0


From 59fc186de446122ef2689ca8247aec20aed6e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 156/168] fix: running a plot built from a spec dropped the
 background and the padding of the spec

---
 packages/vgrammar-plot/src/plot.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-plot/src/plot.ts b/packages/vgrammar-plot/src/plot.ts
index 570f192..42be5b2 100644
--- a/packages/vgrammar-plot/src/plot.ts
+++ b/packages/vgrammar-plot/src/plot.ts
@@ -33,6 +33,7 @@ export class Plot implements IPlot {
   private _coordinate: CoordinateOption;
   private _logger: ILogger;
   private _theme?: string;
+  private _viewOptions?: Pick<ViewSpec, 'width' | 'height' | 'background' | 'padding'>;
 
   constructor(option?: IPlotOptions) {
     registerDefaultLayout();
@@ -113,6 +114,7 @@ export class Plot implements IPlot {
 
   protected parseViewSpec() {
     const spec: ViewSpec = {
+      ...this._viewOptions,
       theme: this._theme,
       data: [],
       interactions: [],
@@ -224,11 +226,13 @@ export class Plot implements IPlot {
       });
     }
 
+    this._viewOptions = {
+      width: spec.width,
+      height: spec.height,
+      background: spec.background,
+      padding: spec.padding
+    };
     const viewSpec = this.parseViewSpec();
-    viewSpec.width = spec.width;
-    viewSpec.height = spec.height;
-    viewSpec.background = spec.background;
-    viewSpec.padding = spec.padding;
 
     if (isUpdate) {
       this.view.updateSpec(viewSpec);
-- 
2.43.0


From e9626a902888f62addde81e4ec88e4b4a432bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 157/168] fix: updating the spec of a plot kept the marks and
 the coordinate of its former spec

---
 packages/vgrammar-plot/src/plot.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/vgrammar-plot/src/plot.ts b/packages/vgrammar-plot/src/plot.ts
index 42be5b2..4090319 100644
--- a/packages/vgrammar-plot/src/plot.ts
+++ b/packages/vgrammar-plot/src/plot.ts
@@ -209,6 +209,8 @@ export class Plot implements IPlot {
   }
 
   updateSpec(spec: PlotSpec) {
+    this._semanticMarks = [];
+    this._coordinate = undefined;
     this.parseSpec(spec, true);
     return this;
   }
-- 
2.43.0


From d325d0673f20efc8b5210a199e363af39858929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 158/168] fix: a plot ignored its theme option, and its marks
 took their colors from the default theme

---
 packages/vgrammar-plot/src/plot.ts          |  5 +++++
 packages/vgrammar-plot/src/semantic-mark.ts | 24 ++++++++++-----------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/packages/vgrammar-plot/src/plot.ts b/packages/vgrammar-plot/src/plot.ts
index 4090319..de42f21 100644
--- a/packages/vgrammar-plot/src/plot.ts
+++ b/packages/vgrammar-plot/src/plot.ts
@@ -41,6 +41,10 @@ export class Plot implements IPlot {
     this.view = new View(option);
     this._semanticMarks = [];
     this._logger = Logger.getInstance();
+
+    if (option?.theme) {
+      this.theme(option.theme);
+    }
   }
 
   theme(theme: string) {
@@ -127,6 +131,7 @@ export class Plot implements IPlot {
     };
 
     this._semanticMarks.forEach(mark => {
+      (mark as { plot?: IPlot }).plot = this;
       if (this._coordinate) {
         mark.coordinate(this._coordinate);
       }
diff --git a/packages/vgrammar-plot/src/semantic-mark.ts b/packages/vgrammar-plot/src/semantic-mark.ts
index edb07ac..ddf3109 100644
--- a/packages/vgrammar-plot/src/semantic-mark.ts
+++ b/packages/vgrammar-plot/src/semantic-mark.ts
@@ -88,7 +88,7 @@ export abstract class SemanticMark<EncodeSpec, K extends string> implements ISem
   protected _logger: ILogger;
   protected _coordinate: CoordinateOption;
   readonly type: string;
-  readonly plot: IPlot;
+  plot?: IPlot;
 
   constructor(type: string, id?: string | number, plot?: IPlot) {
     this.type = type;
@@ -360,7 +360,7 @@ export abstract class SemanticMark<EncodeSpec, K extends string> implements ISem
   }
 
   protected getPalette() {
-    return (this.plot ? this.plot.view.getCurrentTheme() : ThemeManager.getDefaultTheme()).palette?.default;
+    return (this.plot ? this.plot.view.getCurrentTheme() : ThemeManager.getDefaultTheme())?.palette?.default;
   }
 
   abstract setMarkType(): MarkType;
@@ -1060,7 +1060,7 @@ export abstract class SemanticMark<EncodeSpec, K extends string> implements ISem
                         layout: 'vertical',
                         x: elment.mark?.relativePosition?.left ?? 0, // todo, this is a dynamic number
                         y: elment.mark?.relativePosition?.top ?? 0,
-                        railWidth: theme.components.slider.railHeight,
+                        railWidth: theme?.components?.slider?.railHeight,
                         railHeight: params.viewBox.height()
                       }
                     : markLayout.position === 'right'
@@ -1068,7 +1068,7 @@ export abstract class SemanticMark<EncodeSpec, K extends string> implements ISem
                         layout: 'vertical',
                         x: elment.mark?.relativePosition?.left ?? params.viewBox.width(),
                         y: elment.mark?.relativePosition?.top ?? 0,
-                        railWidth: theme.components.slider.railHeight,
+                        railWidth: theme?.components?.slider?.railHeight,
                         railHeight: params.viewBox.height()
                       }
                     : markLayout.position === 'bottom'
@@ -1076,14 +1076,14 @@ export abstract class SemanticMark<EncodeSpec, K extends string> implements ISem
                         layout: 'horizontal',
                         x: elment.mark?.relativePosition?.left ?? 0,
                         y: elment.mark?.relativePosition?.top ?? params.viewBox.height(),
-                        railHeight: theme.components.slider.railHeight,
+                        railHeight: theme?.components?.slider?.railHeight,
                         railWidth: params.viewBox.width()
                       }
                     : {
                         layout: 'horizontal',
                         x: elment.mark?.relativePosition?.left ?? 0,
                         y: elment.mark?.relativePosition?.top ?? 0,
-                        railHeight: theme.components.slider.railHeight,
+                        railHeight: theme?.components?.slider?.railHeight,
                         railWidth: params.viewBox.width()
                       };
                 const attrs = isPlainObject(option) ? merge({}, calculatedAttrs, option) : calculatedAttrs;
@@ -1169,27 +1169,27 @@ export abstract class SemanticMark<EncodeSpec, K extends string> implements ISem
                         orient: markLayout.position as OrientType,
                         x: elment.mark?.relativePosition?.left ?? 0, // todo, this is a dynamic number
                         y: elment.mark?.relativePosition?.top ?? 0,
-                        size: { height: params.viewBox.height(), width: theme.components.datazoom.size.height }
+                        size: { height: params.viewBox.height(), width: theme?.components?.datazoom?.size?.height }
                       }
                     : markLayout.position === 'right'
                     ? {
                         orient: markLayout.position as OrientType,
                         x: elment.mark?.relativePosition?.left ?? params.viewBox.width(),
                         y: elment.mark?.relativePosition?.top ?? 0,
-                        size: { height: params.viewBox.height(), width: theme.components.datazoom.size.height }
+                        size: { height: params.viewBox.height(), width: theme?.components?.datazoom?.size?.height }
                       }
                     : markLayout.position === 'bottom'
                     ? {
                         orient: markLayout.position as OrientType,
                         x: elment.mark?.relativePosition?.left ?? 0,
                         y: elment.mark?.relativePosition?.top ?? params.viewBox.height(),
-                        size: { width: params.viewBox.width(), height: theme.components.datazoom.size.height }
+                        size: { width: params.viewBox.width(), height: theme?.components?.datazoom?.size?.height }
                       }
                     : {
                         orient: markLayout.position as OrientType,
                         x: elment.mark?.relativePosition?.left ?? 0,
                         y: elment.mark?.relativePosition?.top ?? 0,
-                        size: { width: params.viewBox.width(), height: theme.components.datazoom.size.height }
+                        size: { width: params.viewBox.width(), height: theme?.components?.datazoom?.size?.height }
                       };
 
                 const attrs = isPlainObject(option) ? merge({}, calculatedAttrs, option) : calculatedAttrs;
@@ -1534,8 +1534,8 @@ export abstract class SemanticMark<EncodeSpec, K extends string> implements ISem
                 return [
                   0,
                   isPlainObject(option)
-                    ? (option as DataZoomAttributes).size?.height ?? theme.components.datazoom.size.height
-                    : theme.components.datazoom.size.height
+                    ? (option as DataZoomAttributes).size?.height ?? theme?.components?.datazoom?.size?.height
+                    : theme?.components?.datazoom?.size?.height
                 ];
               }
             };
-- 
2.43.0


From 6544c1e1d74d989e874ebe711887568f53e6e25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 159/168] fix: a specification that replaced another one before
 the first run failed

---
 packages/vgrammar-core/src/view/mark-animate-mixin.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/view/mark-animate-mixin.ts b/packages/vgrammar-core/src/view/mark-animate-mixin.ts
index f55b821..9c62bd8 100644
--- a/packages/vgrammar-core/src/view/mark-animate-mixin.ts
+++ b/packages/vgrammar-core/src/view/mark-animate-mixin.ts
@@ -17,8 +17,11 @@ class MarkAnimateMixin {
   }
 
   reuseAnimate(mark: IMark) {
-    this.animate = mark.animate;
-    this.animate.mark = this as unknown as IMark;
+    // a mark that was replaced before its first evaluation has no animate yet
+    if (mark.animate) {
+      this.animate = mark.animate;
+      this.animate.mark = this as unknown as IMark;
+    }
   }
 
   updateAnimate(spec: MarkSpec) {
-- 
2.43.0


From 3c1bf587ae44b60d00f4d82097e6f399c2647dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 160/168] fix: a specification with a datazoom that replaced
 another one before the first run failed

---
 packages/vgrammar-core/src/component/datazoom.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/vgrammar-core/src/component/datazoom.ts b/packages/vgrammar-core/src/component/datazoom.ts
index a57d8ff..0f98c04 100644
--- a/packages/vgrammar-core/src/component/datazoom.ts
+++ b/packages/vgrammar-core/src/component/datazoom.ts
@@ -180,6 +180,10 @@ export class Datazoom extends Component implements IDatazoom {
 
   private setDatazoomHandlers(graphicItem?: DatazoomComponent) {
     const datazoom = graphicItem ?? (this.getGroupGraphicItem() as unknown as DatazoomComponent);
+    if (!datazoom) {
+      // the reused datazoom has never been rendered
+      return;
+    }
     datazoom.setStatePointToData(state => {
       if (this.spec.preview) {
         return this.invertDatazoomRatio(state) ?? state;
-- 
2.43.0


From 026abe742fe1d0975ff6814934d3820b47e20078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 161/168] fix: a path of the plot API had no scale for its
 color

---
 packages/vgrammar-plot/src/path.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-plot/src/path.ts b/packages/vgrammar-plot/src/path.ts
index 649c12a..b6b00fb 100644
--- a/packages/vgrammar-plot/src/path.ts
+++ b/packages/vgrammar-plot/src/path.ts
@@ -25,7 +25,7 @@ export class PathSemanticMark extends SemanticMark<BasicEncoderSpecMap['path'],
     channel: PathEncodeChannels,
     option: ValueOf<WithDefaultEncode<BasicEncoderSpecMap['path'], PathEncodeChannels>, PathEncodeChannels>
   ): ScaleSpec | Nil {
-    return null;
+    return this.parseScaleOfCommonEncode(channel, option);
   }
 
   convertMarkEncode(
-- 
2.43.0


From 92a6123a96f9cfbe9a2b138c54d7f0476e7474e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 162/168] fix: a tooltip showed up again right after the
 pointer had left

---
 packages/vgrammar-core/src/interactions/dimension-tooltip.ts | 2 ++
 packages/vgrammar-core/src/interactions/tooltip.ts           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
index 7ca63e8..8f20f58 100644
--- a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
@@ -154,6 +154,8 @@ export class DimensionTooltip extends BaseTooltip<DimensionTooltipOptions> {
   }, 10);
 
   protected handleTooltipHide = (event: any) => {
+    // a pending call of the throttled handler would show the tooltip again
+    (this.handleTooltipShow as any).cancel?.();
     if (this._tooltipComponent) {
       this._tooltipComponent.hideAll();
     }
diff --git a/packages/vgrammar-core/src/interactions/tooltip.ts b/packages/vgrammar-core/src/interactions/tooltip.ts
index be64c0b..1139ed9 100644
--- a/packages/vgrammar-core/src/interactions/tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/tooltip.ts
@@ -68,6 +68,8 @@ export class Tooltip extends BaseTooltip<TooltipOptions> {
   }, 10) as unknown as InteractionEventHandler;
 
   protected handleTooltipHide = (event: any) => {
+    // a pending call of the throttled handler would show the tooltip again
+    (this.handleTooltipShow as any).cancel?.();
     if (this._tooltipComponent) {
       this._tooltipComponent.hideAll();
     }
-- 
2.43.0


From 848dd601e09be22e7e54da4901002a43aab9fdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 163/168] fix: the tooltip of a dimension was drawn away from
 the pointer by the offset of its container

---
 .../src/interactions/dimension-tooltip.ts     | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
index 8f20f58..1966bc6 100644
--- a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
@@ -129,27 +129,22 @@ export class DimensionTooltip extends BaseTooltip<DimensionTooltipOptions> {
     this._tooltipComponent.showAll();
     if (isEqualTooltipDatum(tooltipDatum, this._lastDatum)) {
       // only update pointer when element is not changed
-      this._tooltipComponent.setAttributes({ pointerX: point.x, pointerY: point.y } as any);
+      this._tooltipComponent.setAttributes({ pointerX: event.canvas.x, pointerY: event.canvas.y } as any);
       return;
     }
     this._lastDatum = tooltipDatum;
 
-    // compute tooltip bounds
-    const boundsStart = { x: 0, y: 0 };
-    groupGraphicItem.globalTransMatrix.transformPoint({ x: 0, y: 0 }, boundsStart);
-    const boundsEnd = { x: 0, y: 0 };
-    groupGraphicItem.globalTransMatrix.transformPoint(
-      {
-        x: this.view.getSignalById('width').getValue() as number,
-        y: this.view.getSignalById('height').getValue() as number
-      },
-      boundsEnd
+    // the tooltip is drawn in the layer, its position and bounds are not relative to the container
+    const bounds = new AABBBounds().set(
+      0,
+      0,
+      this.view.getSignalById('width').getValue() as number,
+      this.view.getSignalById('height').getValue() as number
     );
-    const bounds = new AABBBounds().set(boundsStart.x, boundsStart.y, boundsEnd.x, boundsEnd.y);
     const { title, content } = this._computeTitleContent(tooltipDatum);
     const theme = this.view.getCurrentTheme();
     const addition = invokeFunctionType(this.options.attributes, this.parameters(), {}) as any;
-    const attributes = generateTooltipAttributes(point, title, content, bounds, theme, addition);
+    const attributes = generateTooltipAttributes(event.canvas, title, content, bounds, theme, addition);
     this._tooltipComponent.setAttributes(attributes);
   }, 10);
 
-- 
2.43.0


From 5871d9c77b26001c728fc7b4ca26a00d136d6c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 164/168] fix: the tooltip of a dimension had no title as long
 as it had no rows

---
 packages/vgrammar-core/src/interactions/dimension-tooltip.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
index 1966bc6..4a8c2d3 100644
--- a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
@@ -127,7 +127,7 @@ export class DimensionTooltip extends BaseTooltip<DimensionTooltipOptions> {
       : [];
 
     this._tooltipComponent.showAll();
-    if (isEqualTooltipDatum(tooltipDatum, this._lastDatum)) {
+    if (this._lastDatum && isEqualTooltipDatum(tooltipDatum, this._lastDatum)) {
       // only update pointer when element is not changed
       this._tooltipComponent.setAttributes({ pointerX: event.canvas.x, pointerY: event.canvas.y } as any);
       return;
-- 
2.43.0


From d6c5fd1d58bd2f63833d00a2c4ad12738b18fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:31 +0000
Subject: [PATCH 165/168] fix: a rect crosshair of a continuous scale with a
 size of its own was not centred at the pointer

---
 packages/vgrammar-core/src/interactions/crosshair.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/crosshair.ts b/packages/vgrammar-core/src/interactions/crosshair.ts
index 454abf5..162ece8 100644
--- a/packages/vgrammar-core/src/interactions/crosshair.ts
+++ b/packages/vgrammar-core/src/interactions/crosshair.ts
@@ -157,8 +157,8 @@ export const generateRectCrosshairAttributes = (
   const size =
     defaultSize ??
     (type === 'y'
-      ? customRectStyle?.width ?? crosshairTheme.rectStyle.width
-      : customRectStyle?.height ?? crosshairTheme.rectStyle.height);
+      ? customRectStyle?.height ?? crosshairTheme.rectStyle.height
+      : customRectStyle?.width ?? crosshairTheme.rectStyle.width);
   const points = computeCrosshairStartEnd(point, scale, type, groupSize, config, scale.type === 'band' ? 0 : -size / 2);
   const rectStyle: Partial<IRectGraphicAttribute> = {};
   if (type === 'x') {
-- 
2.43.0


From 5648e442faa1c883066621154e138c782b002560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 166/168] fix: a circle crosshair was drawn away from its
 centre by the offset of its container

---
 packages/vgrammar-core/src/interactions/crosshair.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/vgrammar-core/src/interactions/crosshair.ts b/packages/vgrammar-core/src/interactions/crosshair.ts
index 162ece8..966ea38 100644
--- a/packages/vgrammar-core/src/interactions/crosshair.ts
+++ b/packages/vgrammar-core/src/interactions/crosshair.ts
@@ -368,6 +368,11 @@ export class Crosshair extends BaseInteraction<CrosshairOptions> {
     if (this.getCrosshairComponentType() !== CrosshairEnum.circleCrosshair) {
       attributes.x = containerPoint.x;
       attributes.y = containerPoint.y;
+    } else {
+      attributes.center = {
+        x: attributes.center.x + containerPoint.x,
+        y: attributes.center.y + containerPoint.y
+      };
     }
     this._crosshairComponent.showAll();
     this._crosshairComponent.setAttributes(attributes);
-- 
2.43.0


From 2e91864c689c157e2837f97c97f5869edbaf394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 167/168] fix: crosshairs and tooltips of an angle took another
 value where the range of the scale does not start at zero

---
 packages/vgrammar-core/src/interactions/crosshair.ts       | 7 ++++---
 .../vgrammar-core/src/interactions/dimension-tooltip.ts    | 3 ++-
 packages/vgrammar-core/src/interactions/utils.ts           | 7 +++++++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/crosshair.ts b/packages/vgrammar-core/src/interactions/crosshair.ts
index 966ea38..bbbded1 100644
--- a/packages/vgrammar-core/src/interactions/crosshair.ts
+++ b/packages/vgrammar-core/src/interactions/crosshair.ts
@@ -1,6 +1,6 @@
 import type { IPointLike } from '@visactor/vutils';
 // eslint-disable-next-line no-duplicate-imports
-import { clampRadian, getAngleByPoint, isString, merge } from '@visactor/vutils';
+import { getAngleByPoint, isString, merge } from '@visactor/vutils';
 import type { IRectGraphicAttribute } from '@visactor/vrender-core';
 import type {
   CircleCrosshairAttrs,
@@ -32,6 +32,7 @@ import type { IBandLikeScale, IBaseScale } from '@visactor/vscale';
 // eslint-disable-next-line no-duplicate-imports
 import { isContinuous, isDiscrete } from '@visactor/vscale';
 import { invokeFunctionType } from '../parse/util';
+import { getAngleInRange } from './utils';
 
 type CrosshairComponent = CircleCrosshair | LineCrosshair | PolygonCrosshair | RectCrosshair | SectorCrosshair;
 
@@ -55,7 +56,7 @@ const computeCrosshairStartEnd = (
     } else if (type === 'y') {
       current = scale.scale(scale.invert(point.y));
     } else if (type === 'angle') {
-      const angle = clampRadian(getAngleByPoint(center, point) + Math.PI * 2);
+      const angle = getAngleInRange(getAngleByPoint(center, point), scale.range());
       current = scale.scale(scale.invert(angle));
     }
   } else if (isContinuous(scale.type)) {
@@ -225,7 +226,7 @@ export const generateSectorCrosshairAttributes = (
   const angle = scale.type === 'band' || scale.type === 'point' ? (scale as IBandLikeScale).step() : defaultAngle;
   let currentAngle = 0;
   if (isDiscrete(scale.type)) {
-    const angle = clampRadian(getAngleByPoint(center, point) + Math.PI * 2);
+    const angle = getAngleInRange(getAngleByPoint(center, point), scale.range());
     currentAngle =
       scale.scale(scale.invert(angle)) + (scale.type === 'band' ? (scale as IBandLikeScale).bandwidth() / 2 : 0);
   } else if (isContinuous(scale.type)) {
diff --git a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
index 4a8c2d3..6f75f20 100644
--- a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
@@ -8,6 +8,7 @@ import { generateTooltipAttributes } from './base-tooltip';
 import { BridgeElementKey } from '../graph/constants';
 import type { IBaseScale } from '@visactor/vscale';
 import { invokeFunctionType } from '../parse/util';
+import { getAngleInRange } from './utils';
 
 const isEqualTooltipDatum = (current: any[], previous: any[]) => {
   const currentDatum = array(current);
@@ -42,7 +43,7 @@ const computeTooltipFilterValue = (
   if (type === 'angle') {
     const center = tooltipCenter ?? { x: groupSize.width / 2, y: groupSize.height / 2 };
     const angle = getAngleByPoint(center, point);
-    return scale.invert(angle < 0 ? angle + Math.PI * 2 : angle);
+    return scale.invert(getAngleInRange(angle, scale.range()));
   }
   return scale.invert(point.x);
 };
diff --git a/packages/vgrammar-core/src/interactions/utils.ts b/packages/vgrammar-core/src/interactions/utils.ts
index ced7579..0629ed6 100644
--- a/packages/vgrammar-core/src/interactions/utils.ts
+++ b/packages/vgrammar-core/src/interactions/utils.ts
@@ -70,3 +70,10 @@ export const parseTriggerOffOfSelect = (triggerOff: ElementSelectTriggerOff | El
     resetType
   };
 };
+
+/** turn an angle by full circles so that it lies in the range of an angular scale, if the range contains it */
+export const getAngleInRange = (angle: number, range: number[]) => {
+  const start = Math.min(range[0], range[range.length - 1]);
+  const delta = (angle - start) % (Math.PI * 2);
+  return start + (delta < 0 ? delta + Math.PI * 2 : delta);
+};
-- 
2.43.0


From f43a2fe0e16e63539e2251e68a2a3675dcb1d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 168/168] fix: the tooltip of a dimension kept texts and
 attributes computed from former values of signals

---
 .../src/interactions/dimension-tooltip.ts     | 21 +------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
index 6f75f20..2a0edaa 100644
--- a/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
+++ b/packages/vgrammar-core/src/interactions/dimension-tooltip.ts
@@ -1,6 +1,6 @@
 import type { IPointLike } from '@visactor/vutils';
 // eslint-disable-next-line no-duplicate-imports
-import { AABBBounds, array, getAngleByPoint, isString, throttle } from '@visactor/vutils';
+import { AABBBounds, getAngleByPoint, isString, throttle } from '@visactor/vutils';
 import type { DimensionTooltipOptions, IGroupMark, IMark, IView, TooltipType } from '../types';
 import { BaseTooltip } from './base-tooltip';
 // eslint-disable-next-line no-duplicate-imports
@@ -10,18 +10,6 @@ import type { IBaseScale } from '@visactor/vscale';
 import { invokeFunctionType } from '../parse/util';
 import { getAngleInRange } from './utils';
 
-const isEqualTooltipDatum = (current: any[], previous: any[]) => {
-  const currentDatum = array(current);
-  const previousDatum = array(previous);
-  if (currentDatum.length !== previousDatum.length) {
-    return false;
-  }
-  return (
-    currentDatum.every(datum => previousDatum.includes(datum)) &&
-    previousDatum.every(datum => currentDatum.includes(datum))
-  );
-};
-
 const computeTooltipFilterValue = (
   point: IPointLike,
   scale: IBaseScale,
@@ -57,7 +45,6 @@ export class DimensionTooltip extends BaseTooltip<DimensionTooltipOptions> {
     triggerOff: 'pointerleave'
   };
   protected _avoidMarks: IMark[] = [];
-  protected _lastDatum: any;
   protected _tooltipDataFilter: ((datum: any, filterValue: any[]) => boolean) | null = null;
   protected _container: IGroupMark;
 
@@ -128,12 +115,6 @@ export class DimensionTooltip extends BaseTooltip<DimensionTooltipOptions> {
       : [];
 
     this._tooltipComponent.showAll();
-    if (this._lastDatum && isEqualTooltipDatum(tooltipDatum, this._lastDatum)) {
-      // only update pointer when element is not changed
-      this._tooltipComponent.setAttributes({ pointerX: event.canvas.x, pointerY: event.canvas.y } as any);
-      return;
-    }
-    this._lastDatum = tooltipDatum;
 
     // the tooltip is drawn in the layer, its position and bounds are not relative to the container
     const bounds = new AABBBounds().set(
-- 
2.43.0

