From ff88f08bc22cc58e939b471f6d152b36dff0a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 01/41] fix: treat a continuing tool call fragment without
 arguments as empty

A streamed tool call fragment that carries no arguments appended the text
"undefined" to the accumulated arguments.
---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 5 +++--
 packages/stream-text/src/index.ts                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index e644ca8..8ae70d3 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -197,8 +197,9 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
                     pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
                 }
                 else {
-                  tool_calls[index].function.arguments! += toolCall.function.arguments
-                  pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                  const delta = toolCall.function.arguments ?? ''
+                  tool_calls[index].function.arguments! += delta
+                  pushEvent({ delta, type: 'tool-call.delta' })
                 }
               }
             }
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 91e992e..f03c4f6 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -220,8 +220,9 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
                   pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
               }
               else {
-                tool_calls[index].function.arguments! += toolCall.function.arguments
-                pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                const delta = toolCall.function.arguments ?? ''
+                tool_calls[index].function.arguments! += delta
+                pushEvent({ delta, type: 'tool-call.delta' })
               }
             }
           }
-- 
2.43.0


From 787c48cf1398ff9aef8a050cd71f765a60c1bf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 02/41] fix: leave no holes in the assistant message when tool
 call indexes are sparse

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 5 +++--
 packages/stream-text/src/index.ts                 | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 8ae70d3..9aa05ae 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -211,16 +211,17 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       if (textStarted)
         pushEvent({ content: text, type: 'text.done' })
 
+      // a provider may number its calls sparsely
+      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
       const message: AssistantMessage = {
         ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
         content: text,
         role: 'assistant',
-        tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+        tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
       }
       messages.push(message)
       span.setAttribute('gen_ai.output.messages', JSON.stringify([message]))
 
-      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
       const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
       const toolResults: CompletionToolResult[] = []
 
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index f03c4f6..7c7554f 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -234,14 +234,16 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     if (textStarted)
       pushEvent({ content: text, type: 'text.done' })
 
+    // a provider may number its calls sparsely
+    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
+
     messages.push({
       ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
       content: text,
       role: 'assistant',
-      tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+      tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
     })
 
-    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
     const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
     const toolResults: CompletionToolResult[] = []
 
-- 
2.43.0


From 292ece239f874e0ae1726d16447f64e12fb017ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 03/41] fix: deliver text and refusals that share a chunk with
 tool calls

---
 .../telemetry/src/wrapped/stream-text.ts      | 31 ++++++++-----------
 packages/stream-text/src/index.ts             | 31 ++++++++-----------
 2 files changed, 26 insertions(+), 36 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 9aa05ae..81640a4 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -157,27 +157,22 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
             if (choice.finish_reason != null)
               finishReason = choice.finish_reason
 
-            if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null) {
-              if (choice.delta.content != null) {
-                if (!textStarted) {
-                  textStarted = true
-                  pushEvent({ type: 'text.start' })
-                }
-                pushEvent({ delta: choice.delta.content, type: 'text.delta' })
-                pushText(choice.delta.content)
-              }
-              else if (choice.delta.refusal != null) {
-                if (!textStarted) {
-                  textStarted = true
-                  pushEvent({ type: 'text.start' })
-                }
-                pushEvent({ delta: choice.delta.refusal, type: 'text.delta' })
-                pushText(choice.delta.refusal)
+            const hasToolCalls = choice.delta.tool_calls != null && choice.delta.tool_calls.length > 0
+            const content = choice.delta.content ?? choice.delta.refusal
+
+            // an empty content next to tool calls is padding
+            if (content != null && (!hasToolCalls || content.length > 0)) {
+              if (!textStarted) {
+                textStarted = true
+                pushEvent({ type: 'text.start' })
               }
+              pushEvent({ delta: content, type: 'text.delta' })
+              pushText(content)
             }
-            else {
+
+            if (hasToolCalls) {
             // https://platform.openai.com/docs/guides/function-calling?api-mode=chat&lang=javascript#streaming
-              for (const toolCall of choice.delta.tool_calls) {
+              for (const toolCall of choice.delta.tool_calls!) {
                 const { index } = toolCall
 
                 if (!tool_calls.at(index)) {
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 7c7554f..6ff115e 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -184,27 +184,22 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
           if (choice.finish_reason != null)
             finishReason = choice.finish_reason
 
-          if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null) {
-            if (choice.delta.content != null) {
-              if (!textStarted) {
-                textStarted = true
-                pushEvent({ type: 'text.start' })
-              }
-              pushEvent({ delta: choice.delta.content, type: 'text.delta' })
-              pushText(choice.delta.content)
-            }
-            else if (choice.delta.refusal != null) {
-              if (!textStarted) {
-                textStarted = true
-                pushEvent({ type: 'text.start' })
-              }
-              pushEvent({ delta: choice.delta.refusal, type: 'text.delta' })
-              pushText(choice.delta.refusal)
+          const hasToolCalls = choice.delta.tool_calls != null && choice.delta.tool_calls.length > 0
+          const content = choice.delta.content ?? choice.delta.refusal
+
+          // an empty content next to tool calls is padding
+          if (content != null && (!hasToolCalls || content.length > 0)) {
+            if (!textStarted) {
+              textStarted = true
+              pushEvent({ type: 'text.start' })
             }
+            pushEvent({ delta: content, type: 'text.delta' })
+            pushText(content)
           }
-          else {
+
+          if (hasToolCalls) {
             // https://platform.openai.com/docs/guides/function-calling?api-mode=chat&lang=javascript#streaming
-            for (const toolCall of choice.delta.tool_calls) {
+            for (const toolCall of choice.delta.tool_calls!) {
               const { index } = toolCall
 
               if (!tool_calls.at(index)) {
-- 
2.43.0


From 7b50a22436c7a2c4d0174c2a2d31b55b9b2585b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 04/41] fix: account usage once per step and do not carry it
 over to the next

A provider that reports usage on several chunks of one response was counted
once per chunk in totalUsage, and a step without usage showed the previous
step's.
---
 packages-ext/responses/src/utils/responses.ts     | 1 +
 packages-ext/telemetry/src/wrapped/stream-text.ts | 7 ++++++-
 packages/stream-text/src/index.ts                 | 7 ++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 0cdfbb5..6b15894 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -273,6 +273,7 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   // eslint-disable-next-line sonarjs/cognitive-complexity
   const doStream = async () => {
     const reader = await createReader()
+    usage = undefined
     const functionCalls: FunctionCall[] = []
     const toolCalls: CompletionToolCall[] = []
     const toolResults: CompletionToolResult[] = []
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 81640a4..fe12370 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -88,7 +88,6 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
           return
 
         usage = normalizeChatCompletionUsage(u)
-        totalUsage = computeTotalUsage(totalUsage, usage)
       }
 
       let text = ''
@@ -109,6 +108,9 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       let reasoningStarted = false
       let textStarted = false
 
+      // reported per step, possibly on several chunks: the last one counts
+      usage = undefined
+
       pushEvent({ type: 'step.start' })
 
       await stream!
@@ -220,6 +222,9 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
       const toolResults: CompletionToolResult[] = []
 
+      if (usage != null)
+        totalUsage = computeTotalUsage(totalUsage, usage)
+
       if (options.abortSignal?.aborted === true)
         throw options.abortSignal.reason ?? new Error('This operation was aborted')
 
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 6ff115e..2f226e1 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -115,7 +115,6 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
         return
 
       usage = normalizeChatCompletionUsage(u)
-      totalUsage = computeTotalUsage(totalUsage, usage)
     }
 
     let text = ''
@@ -136,6 +135,9 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     let reasoningStarted = false
     let textStarted = false
 
+    // reported per step, possibly on several chunks: the last one counts
+    usage = undefined
+
     pushEvent({ type: 'step.start' })
 
     await stream!
@@ -242,6 +244,9 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
     const toolResults: CompletionToolResult[] = []
 
+    if (usage != null)
+      totalUsage = computeTotalUsage(totalUsage, usage)
+
     if (options.abortSignal?.aborted === true)
       throw options.abortSignal.reason ?? new Error('This operation was aborted')
 
-- 
2.43.0


From 3284837e5d8b14d1420ab309a228bfb51fba7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 05/41] fix: do not raise unhandled rejections for result
 promises nobody reads

A failed streamText, responses or streamTranscription call rejected every
result promise, so a caller that only consumed a stream (and handled its
error) still got unhandled rejections, which end a Node process.
---
 packages-ext/responses/src/utils/responses.ts     | 4 ++++
 packages-ext/telemetry/src/wrapped/stream-text.ts | 4 ++++
 packages/stream-text/src/index.ts                 | 4 ++++
 packages/stream-transcription/src/index.ts        | 2 ++
 4 files changed, 14 insertions(+)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 6b15894..9b099eb 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -159,6 +159,10 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   const resultUsage = Promise.withResolvers<undefined | Usage>()
   const resultTotalUsage = Promise.withResolvers<undefined | Usage>()
 
+  // a caller that only reads the streams must not get unhandled rejections
+  for (const { promise } of [resultInput, resultSteps, resultUsage, resultTotalUsage])
+    promise.catch(() => {})
+
   // output
   const [fullStream, fullCtrl] = createControlledStream<FullEvent>()
   const [textStream, textCtrl] = createControlledStream<string>()
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index fe12370..beb9bb4 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -32,6 +32,10 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
   const resultUsage = Promise.withResolvers<undefined | Usage>()
   const resultTotalUsage = Promise.withResolvers<undefined | Usage>()
 
+  // a caller that only reads the streams must not get unhandled rejections
+  for (const { promise } of [resultSteps, resultMessages, resultUsage, resultTotalUsage])
+    promise.catch(() => {})
+
   // output
   const [eventStream, eventCtrl] = createControlledStream<Event>()
   const [fullStream, fullCtrl] = createControlledStream<StreamTextChunkResult>()
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 2f226e1..cddc0db 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -71,6 +71,10 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
   const resultUsage = Promise.withResolvers<undefined | Usage>()
   const resultTotalUsage = Promise.withResolvers<undefined | Usage>()
 
+  // a caller that only reads the streams must not get unhandled rejections
+  for (const { promise } of [resultSteps, resultMessages, resultUsage, resultTotalUsage])
+    promise.catch(() => {})
+
   // output
   const [eventStream, eventCtrl] = createControlledStream<Event>()
   const [fullStream, fullCtrl] = createControlledStream<StreamTextChunkResult>()
diff --git a/packages/stream-transcription/src/index.ts b/packages/stream-transcription/src/index.ts
index 508925d..62969c7 100644
--- a/packages/stream-transcription/src/index.ts
+++ b/packages/stream-transcription/src/index.ts
@@ -35,6 +35,8 @@ export const streamTranscription = (options: WithUnknown<StreamTranscriptionOpti
   const [textStream, textStreamCtrl] = createControlledStream<string>()
   const [fullStream, fullStreamCtrl] = createControlledStream<StreamTranscriptionDelta>()
   const fullText = Promise.withResolvers<string>()
+  // a caller that only reads the streams must not get unhandled rejections
+  fullText.promise.catch(() => {})
   let text = ''
 
   const doStream = async () => {
-- 
2.43.0


From 96a16fa19de77bf20751e6cad72935cdc843de3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 06/41] fix: settle the usage of streamSpeech when the stream
 fails or is cancelled

---
 packages/stream-speech/src/index.ts | 82 ++++++++++++++++-------------
 1 file changed, 44 insertions(+), 38 deletions(-)

diff --git a/packages/stream-speech/src/index.ts b/packages/stream-speech/src/index.ts
index 807dd1e..6dfb607 100644
--- a/packages/stream-speech/src/index.ts
+++ b/packages/stream-speech/src/index.ts
@@ -56,49 +56,55 @@ export const streamSpeech = async (options: WithUnknown<StreamSpeechOptions>): P
     streamFormat: 'sse',
   })
 
-  const fullStream = response.body!
-    .pipeThrough(new TextDecoderStream())
-    .pipeThrough(new EventSourceParserStream())
-    .pipeThrough(new JsonMessageTransformStream<StreamSpeechEvent>())
-    .pipeThrough(new TransformStream<StreamSpeechEvent, Uint8Array>({
-      flush: () => {
-        if (usageResolved)
-          return
+  const audio = new TransformStream<StreamSpeechEvent, Uint8Array>({
+    flush: () => {
+      if (usageResolved)
+        return
 
-        usageResolved = true
-        usage.resolve(undefined)
-      },
-      transform: (chunk, controller) => {
-        try {
-          switch (chunk.type) {
-            case 'speech.audio.delta':
-              controller.enqueue(Uint8Array.fromBase64(chunk.audio))
-              break
-            case 'speech.audio.done':
-              if (chunk.usage != null) {
-                usage.resolve({
-                  inputTokens: chunk.usage.input_tokens,
-                  outputTokens: chunk.usage.output_tokens,
-                  totalTokens: chunk.usage.total_tokens,
-                })
-                usageResolved = true
-              }
-              break
-          }
+      usageResolved = true
+      usage.resolve(undefined)
+    },
+    transform: (chunk, controller) => {
+      try {
+        switch (chunk.type) {
+          case 'speech.audio.delta':
+            controller.enqueue(Uint8Array.fromBase64(chunk.audio))
+            break
+          case 'speech.audio.done':
+            if (chunk.usage != null) {
+              usage.resolve({
+                inputTokens: chunk.usage.input_tokens,
+                outputTokens: chunk.usage.output_tokens,
+                totalTokens: chunk.usage.total_tokens,
+              })
+              usageResolved = true
+            }
+            break
         }
-        catch (error) {
-          if (!usageResolved) {
-            usageResolved = true
-            usage.reject(error)
-          }
-
-          throw error
+      }
+      catch (error) {
+        if (!usageResolved) {
+          usageResolved = true
+          usage.reject(error)
         }
-      },
-    }))
+
+        throw error
+      }
+    },
+  })
+
+  response.body!
+    .pipeThrough(new TextDecoderStream())
+    .pipeThrough(new EventSourceParserStream())
+    .pipeThrough(new JsonMessageTransformStream<StreamSpeechEvent>())
+    .pipeTo(audio.writable)
+    // an upstream error or a cancelled consumer never reaches the transformer
+    .catch(error => usage.reject(error))
+  // a caller that only reads the stream must not get an unhandled rejection
+  usage.promise.catch(() => {})
 
   return {
-    fullStream,
+    fullStream: audio.readable,
     usage: usage.promise,
   }
 }
-- 
2.43.0


From 73fa84f893631ef1ed7dc63062656161765f29ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 07/41] fix: deliver all text through smoothStream

The text after the last boundary was dropped at the end of the stream, and a
match that did not start at the beginning of the buffer dropped what precedes
it and sent the wrong remainder.
---
 packages/utils-stream/src/smooth-stream.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/utils-stream/src/smooth-stream.ts b/packages/utils-stream/src/smooth-stream.ts
index 17bc5e1..4043dfc 100644
--- a/packages/utils-stream/src/smooth-stream.ts
+++ b/packages/utils-stream/src/smooth-stream.ts
@@ -29,12 +29,17 @@ export const smoothStream = ({ chunking = 'word', delay = 10 }: SmoothStreamOpti
   let buffer = ''
 
   return new TransformStream<string, string>({
+    flush: (controller) => {
+      if (buffer.length > 0)
+        controller.enqueue(buffer)
+    },
     transform: async (chunk, controller) => {
       buffer += chunk
 
       let match = chunkingRegexp.exec(buffer)
       while (match !== null) {
-        const result = match[0]
+        // a match further on must not drop what precedes it
+        const result = buffer.slice(0, match.index + match[0].length)
         controller.enqueue(result)
         buffer = buffer.slice(result.length)
 
-- 
2.43.0


From 319aeb18b2b83c949ac94ea13d49b144aedeb0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 08/41] fix: emit every array element exactly once in
 elementStream

At most one element was emitted per chunk, so elements were lost when several
arrived together, and an empty array emitted undefined.
---
 packages/stream-object/src/utils/to-element-stream.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/stream-object/src/utils/to-element-stream.ts b/packages/stream-object/src/utils/to-element-stream.ts
index b5bed5b..72daaa8 100644
--- a/packages/stream-object/src/utils/to-element-stream.ts
+++ b/packages/stream-object/src/utils/to-element-stream.ts
@@ -9,13 +9,14 @@ export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStre
   return stream.pipeThrough(new TransformStream<string, T>({
     flush: (controller) => {
       const data = parse(partialObjectData) as PartialDeep<T>
-      controller.enqueue((data as { elements: T[] }).elements.at(-1))
+      for (const element of (data as { elements: T[] }).elements.slice(index))
+        controller.enqueue(element)
     },
     transform: (chunk, controller) => {
       partialObjectData += chunk
       try {
         const data = parse(partialObjectData) as PartialDeep<T>
-        if (
+        while (
           Array.isArray(Object.getOwnPropertyDescriptor(data, 'elements')?.value)
           && (data as { elements: T[] }).elements.length > index + 1
         ) {
-- 
2.43.0


From 0d9a5d37bde530c7f573bc855109c897ac3391db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 09/41] fix: do not emit an empty string as a partial object

---
 packages/stream-object/src/utils/to-partial-object-stream.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/stream-object/src/utils/to-partial-object-stream.ts b/packages/stream-object/src/utils/to-partial-object-stream.ts
index 34da6f4..cd9df4a 100644
--- a/packages/stream-object/src/utils/to-partial-object-stream.ts
+++ b/packages/stream-object/src/utils/to-partial-object-stream.ts
@@ -12,6 +12,10 @@ export const toPartialObjectStream = <T>(stream: ReadableStream<string>): Readab
       try {
         const data = parse(partialObjectData) as PartialDeep<T>
 
+        // nothing but padding so far
+        if (typeof data !== 'object' || data === null)
+          return
+
         if (JSON.stringify(partialObjectSnapshot) !== JSON.stringify(data)) {
           partialObjectSnapshot = data
           controller.enqueue(data)
-- 
2.43.0


From 7a1faf6770e676cf77a51d91480ab67506970eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 10/41] fix: cancelling one output of extractReasoningStream
 leaves the other intact

---
 packages/utils-reasoning/src/extract-reasoning-stream.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning-stream.ts b/packages/utils-reasoning/src/extract-reasoning-stream.ts
index 6383f57..2bf7654 100644
--- a/packages/utils-reasoning/src/extract-reasoning-stream.ts
+++ b/packages/utils-reasoning/src/extract-reasoning-stream.ts
@@ -15,12 +15,14 @@ export const extractReasoningStream = (stream: ReadableStream<string>, options:
   const endTag = `</${options.tagName}>`
   const separator = options.separator ?? '\n'
 
-  let reasoningStreamController: ReadableStreamDefaultController<string>
-  let textStreamController: ReadableStreamDefaultController<string>
+  let reasoningStreamController: ReadableStreamDefaultController<string> | undefined
+  let textStreamController: ReadableStreamDefaultController<string> | undefined
   const reasoningStream = new ReadableStream<string>({
+    cancel: () => reasoningStreamController = undefined,
     start: controller => reasoningStreamController = controller,
   })
   const textStream = new ReadableStream<string>({
+    cancel: () => textStreamController = undefined,
     start: controller => textStreamController = controller,
   })
 
-- 
2.43.0


From 5f1d581a6e73edf431807d24d0c2533e71c62df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 11/41] fix: separate the final buffered block in
 extractReasoningStream

---
 packages/utils-reasoning/src/extract-reasoning-stream.ts | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning-stream.ts b/packages/utils-reasoning/src/extract-reasoning-stream.ts
index 2bf7654..f338f07 100644
--- a/packages/utils-reasoning/src/extract-reasoning-stream.ts
+++ b/packages/utils-reasoning/src/extract-reasoning-stream.ts
@@ -56,14 +56,7 @@ export const extractReasoningStream = (stream: ReadableStream<string>, options:
   stream.pipeTo(
     new WritableStream({
       close: () => {
-        if (buffer.length > 0) {
-          if (isReasoning) {
-            reasoningStreamController?.enqueue(buffer)
-          }
-          else {
-            textStreamController?.enqueue(buffer)
-          }
-        }
+        enqueueStream(buffer)
         reasoningStreamController?.close()
         textStreamController?.close()
       },
-- 
2.43.0


From 274fc4a314c3b02773c162264b7ab15f8c0afe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 12/41] fix: keep the input validator of a tool when telemetry
 wraps it

With telemetry, tools ran on arguments their schema rejects.
---
 packages-ext/telemetry/src/utils/wrap-tool.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 37d2c4d..5fef8ae 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -22,4 +22,5 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
     }),
   function: tool.function,
   type: tool.type,
+  validate: tool.validate?.bind(tool),
 })
-- 
2.43.0


From 9b3d09f2bf1369455d1cf374a666e02583ba403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 13/41] fix: run preToolCall and postToolCall with telemetry

---
 packages-ext/telemetry/src/wrapped/generate-text.ts | 2 ++
 packages-ext/telemetry/src/wrapped/stream-text.ts   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index 5777e0a..a5ebd57 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -94,6 +94,8 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
               msgToolCalls.map(async toolCall => executeTool({
                 abortSignal: options.abortSignal,
                 messages,
+                postToolCall: options.postToolCall,
+                preToolCall: options.preToolCall,
                 toolCall,
                 tools: options.tools,
               })),
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index beb9bb4..fa16e0b 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -253,6 +253,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
           validToolCalls.map(async toolCall => executeTool({
             abortSignal: options.abortSignal,
             messages,
+            postToolCall: options.postToolCall,
+            preToolCall: options.preToolCall,
             toolCall,
             tools,
           })),
-- 
2.43.0


From d9fca4f0cf5a3ff2c4763593894154d24cf61a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 14/41] fix: report a response without choices as such

An error body without usage failed with a TypeError before the check for
choices could raise InvalidResponseError.
---
 packages-ext/telemetry/src/wrapped/generate-text.ts | 4 ++--
 packages/generate-text/src/index.ts                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index a5ebd57..0fd4ed4 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -49,8 +49,6 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
         .then(responseJSON<GenerateTextResponse>)
         .then(async (res) => {
           const { choices } = res
-          const usage = normalizeChatCompletionUsage(res.usage)
-          const totalUsage = computeTotalUsage(options.totalUsage, usage)
 
           if (!choices?.length) {
             const responseBody = JSON.stringify(res)
@@ -60,6 +58,8 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
             })
           }
 
+          const usage = normalizeChatCompletionUsage(res.usage)
+          const totalUsage = computeTotalUsage(options.totalUsage, usage)
           const { finish_reason: finishReason, message } = choices[0]
           const msgToolCalls: ToolCall[] = message?.tool_calls ?? []
           const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
diff --git a/packages/generate-text/src/index.ts b/packages/generate-text/src/index.ts
index 87d39d9..bbbf039 100644
--- a/packages/generate-text/src/index.ts
+++ b/packages/generate-text/src/index.ts
@@ -87,8 +87,6 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
     .then(responseJSON<GenerateTextResponse>)
     .then(async (res) => {
       const { choices } = res
-      const usage = normalizeChatCompletionUsage(res.usage)
-      const totalUsage = computeTotalUsage(options.totalUsage, usage)
 
       if (!choices?.length) {
         const responseBody = JSON.stringify(res)
@@ -98,6 +96,8 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
         })
       }
 
+      const usage = normalizeChatCompletionUsage(res.usage)
+      const totalUsage = computeTotalUsage(options.totalUsage, usage)
       const { finish_reason: finishReason, message } = choices[0]
       const msgToolCalls = message?.tool_calls ?? []
       const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
-- 
2.43.0


From 08cb82670c98a19c61e5a60325c5ce305c7e4675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 15/41] fix: give every provider call its own options

All calls of one provider shared and mutated one options object, so the model
(and extra options) of one call leaked into the others.
---
 packages-ext/providers/src/utils/create.ts | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/packages-ext/providers/src/utils/create.ts b/packages-ext/providers/src/utils/create.ts
index fd068b1..409c1ab 100644
--- a/packages-ext/providers/src/utils/create.ts
+++ b/packages-ext/providers/src/utils/create.ts
@@ -1,45 +1,45 @@
 import type { ChatProvider, ChatProviderWithExtraOptions, CreateProviderOptions, EmbedProvider, EmbedProviderWithExtraOptions, ImageProvider, ModelProvider, ModelProviderWithExtraOptions, SpeechProvider, SpeechProviderWithExtraOptions, TranscriptionProvider, TranscriptionProviderWithExtraOptions } from './types'
 
 export const createChatProvider = <T extends string = string>(options: CreateProviderOptions): ChatProvider<T> => ({
-  chat: model => Object.assign(options, { model }),
+  chat: model => Object.assign({}, options, { model }),
 })
 
 export const createChatProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): ChatProviderWithExtraOptions<T, T2> => ({
-  chat: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  chat: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createEmbedProvider = <T extends string = string>(options: CreateProviderOptions): EmbedProvider<T> => ({
-  embed: model => Object.assign(options, { model }),
+  embed: model => Object.assign({}, options, { model }),
 })
 
 export const createEmbedProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): EmbedProviderWithExtraOptions<T, T2> => ({
-  embed: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  embed: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createImageProvider = <T extends string = string>(options: CreateProviderOptions): ImageProvider<T> => ({
-  image: model => Object.assign(options, { model }),
+  image: model => Object.assign({}, options, { model }),
 })
 
 export const createModelProvider = (options: CreateProviderOptions): ModelProvider => ({
-  model: () => options,
+  model: () => Object.assign({}, options),
 })
 
 export const createModelProviderWithExtraOptions = <T = undefined>(options: Omit<CreateProviderOptions, 'model'>): ModelProviderWithExtraOptions<T> => ({
-  model: extraOptions => Object.assign(options, extraOptions),
+  model: extraOptions => Object.assign({}, options, extraOptions),
 })
 
 export const createSpeechProvider = <T extends string = string>(options: CreateProviderOptions): SpeechProvider<T> => ({
-  speech: model => Object.assign(options, { model }),
+  speech: model => Object.assign({}, options, { model }),
 })
 
 export const createSpeechProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): SpeechProviderWithExtraOptions<T, T2> => ({
-  speech: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  speech: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createTranscriptionProvider = <T extends string = string>(options: CreateProviderOptions): TranscriptionProvider<T> => ({
-  transcription: model => Object.assign(options, { model }),
+  transcription: model => Object.assign({}, options, { model }),
 })
 
 export const createTranscriptionProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): TranscriptionProviderWithExtraOptions<T, T2> => ({
-  transcription: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  transcription: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
-- 
2.43.0


From 46e8f866030c4eda485607e0350aa9945a581369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 16/41] fix: pass HTTP errors through in the featherless,
 together and player2 providers

Their fetch adapters turned an error response into a successful one.
---
 packages-ext/providers/src/manual/providers/featherless.ts | 3 +--
 packages-ext/providers/src/manual/providers/together-ai.ts | 3 +--
 packages-ext/providers/src/special/providers/player2.ts    | 6 +++++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/featherless.ts b/packages-ext/providers/src/manual/providers/featherless.ts
index 648404a..c6f7987 100644
--- a/packages-ext/providers/src/manual/providers/featherless.ts
+++ b/packages-ext/providers/src/manual/providers/featherless.ts
@@ -14,7 +14,6 @@ export const createFeatherless = (apiKey: string, baseURL = 'https://api.feather
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      .then(async res => res.ok ? Response.json({ data: await res.json() as unknown[], object: 'list' }) : res),
   }),
 )
diff --git a/packages-ext/providers/src/manual/providers/together-ai.ts b/packages-ext/providers/src/manual/providers/together-ai.ts
index 55ac5e2..12bcf36 100644
--- a/packages-ext/providers/src/manual/providers/together-ai.ts
+++ b/packages-ext/providers/src/manual/providers/together-ai.ts
@@ -18,7 +18,6 @@ export const createTogetherAI = (apiKey: string, baseURL = 'https://api.together
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      .then(async res => res.ok ? Response.json({ data: await res.json() as unknown[], object: 'list' }) : res),
   }),
 )
diff --git a/packages-ext/providers/src/special/providers/player2.ts b/packages-ext/providers/src/special/providers/player2.ts
index a3d444c..fa5f5cb 100644
--- a/packages-ext/providers/src/special/providers/player2.ts
+++ b/packages-ext/providers/src/special/providers/player2.ts
@@ -47,7 +47,11 @@ export const createPlayer2 = (baseURL = 'http://localhost:4315/v1/', gameKey = '
       catch (err) {
         console.warn('Could not parse body as JSON:', err)
       }
-      return globalThis.fetch(newUrl, reqInit).then(async res => res.json() as Promise<{ data?: string }>).then((json: { data?: string }) => {
+      return globalThis.fetch(newUrl, reqInit).then(async (res) => {
+        if (!res.ok)
+          return res
+
+        const json = await res.json() as { data?: string }
         const base64 = json.data ?? ''
         const bytes = Uint8Array.fromBase64(base64)
         const body = new ReadableStream({
-- 
2.43.0


From 264bb2915325019df75b8c965fbe63f6524317db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 17/41] fix: send transforms and Headers given to the
 openrouter provider

---
 packages-ext/providers/src/manual/providers/openrouter.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/openrouter.ts b/packages-ext/providers/src/manual/providers/openrouter.ts
index 7a85d95..f7c45f3 100644
--- a/packages-ext/providers/src/manual/providers/openrouter.ts
+++ b/packages-ext/providers/src/manual/providers/openrouter.ts
@@ -104,10 +104,10 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
     chat: (model: string, openRouterOptions?: OpenRouterOptions) => {
       const requestOptions: CommonRequestOptions = { apiKey, baseURL, model }
 
-      const toOpenRouterOptions = ({ extraHeaders, models, provider }: OpenRouterOptions): Record<string, unknown> => {
+      const toOpenRouterOptions = ({ extraHeaders, models, provider, transforms }: OpenRouterOptions): Record<string, unknown> => {
         if (extraHeaders != null) {
           requestOptions.headers ??= {}
-          Object.assign(requestOptions.headers, extraHeaders)
+          Object.assign(requestOptions.headers, extraHeaders instanceof Headers ? Object.fromEntries(extraHeaders) : extraHeaders)
         }
 
         let transformedProvider: Record<string, unknown> | undefined
@@ -118,6 +118,7 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
         return objCamelToSnake({
           models,
           provider: transformedProvider,
+          transforms,
         })
       }
 
-- 
2.43.0


From d09d61d933d148bd83dc34bc8858b5256de6a349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 18/41] fix: send headers given as a Headers instance

---
 packages/shared/src/utils/post-json.ts       | 2 +-
 packages/shared/src/utils/request-headers.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/shared/src/utils/post-json.ts b/packages/shared/src/utils/post-json.ts
index a841b9b..258b3fa 100644
--- a/packages/shared/src/utils/post-json.ts
+++ b/packages/shared/src/utils/post-json.ts
@@ -10,7 +10,7 @@ export const postJSON = async (path: string, options: WithUnknown<CommonRequestO
     body: requestBody(options),
     headers: requestHeaders({
       'Content-Type': 'application/json',
-      ...options.headers,
+      ...(options.headers instanceof Headers ? Object.fromEntries(options.headers) : options.headers),
     }, options.apiKey),
     method: 'POST',
     signal: options.abortSignal,
diff --git a/packages/shared/src/utils/request-headers.ts b/packages/shared/src/utils/request-headers.ts
index b9a8c9a..c6a0ce6 100644
--- a/packages/shared/src/utils/request-headers.ts
+++ b/packages/shared/src/utils/request-headers.ts
@@ -4,5 +4,5 @@ import { clean } from './clean'
 
 export const requestHeaders = (headers?: CommonRequestOptions['headers'], apiKey?: CommonRequestOptions['apiKey']) => clean({
   Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined,
-  ...headers,
+  ...(headers instanceof Headers ? Object.fromEntries(headers) : headers),
 })
-- 
2.43.0


From 71615985d7dab0fdf8c0417d0f4d1d75d8dd9db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 19/41] fix: release the response that a retry gives up

---
 packages-top/xsfetch/src/index.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index d3e773c..6362fe2 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -28,6 +28,9 @@ export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): type
     if (options.debug)
       console.warn('[xsfetch] Failed, retrying... Times left:', retriesLeft)
 
+    // release the connection of the response that is given up
+    void res.body?.cancel().catch(() => {})
+
     await sleep(options.retryDelay)
     return async () => xsfetch(retriesLeft - 1, input, init)
   }
-- 
2.43.0


From e1ecdd711cca2615f588035a84eeaa23d3911ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 20/41] fix: release the response body when the responses loop
 leaves it early

---
 packages-ext/responses/src/utils/responses.ts | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 9b099eb..d6fe203 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -275,8 +275,7 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   // eslint-disable-next-line sonarjs/cognitive-complexity
-  const doStream = async () => {
-    const reader = await createReader()
+  const readStep = async (reader: Awaited<ReturnType<typeof createReader>>) => {
     usage = undefined
     const functionCalls: FunctionCall[] = []
     const toolCalls: CompletionToolCall[] = []
@@ -357,10 +356,20 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
       pushStreamingEvent(event)
       pushEvents(events)
 
-      if (shouldContinue) {
-        reader.releaseLock()
+      if (shouldContinue)
         return async () => doStream()
-      }
+    }
+  }
+
+  const doStream = async () => {
+    const reader = await createReader()
+
+    try {
+      return await readStep(reader)
+    }
+    finally {
+      // release the connection of a response that is not read to its end
+      void reader.cancel().catch(() => {})
     }
   }
 
-- 
2.43.0


From 9e940546dfe9fea729e46f198621b0360c2583fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 21/41] fix: retry requests given as a Request with a body

---
 packages-top/xsfetch/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index 6362fe2..40e3df0 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -20,7 +20,8 @@ export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): type
   const options: Readonly<CreateFetchOptions> = Object.assign({}, defaults, userOptions)
 
   const xsfetch = async (retriesLeft: number, input: Request | string | URL, init?: RequestInit) => {
-    const res = await fetch(input, init)
+    // the body of a Request can only be sent once
+    const res = await fetch(retriesLeft > 0 && input instanceof Request ? input.clone() : input, init)
 
     if (res.ok || retriesLeft === 0 || !options.retryStatusCodes.includes(res.status))
       return res
-- 
2.43.0


From 1b7f6cf968c26addf725d19a9f32902642924c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 22/41] fix: smoothStream honours every boundary of a global or
 sticky pattern

---
 packages/utils-stream/src/smooth-stream.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/utils-stream/src/smooth-stream.ts b/packages/utils-stream/src/smooth-stream.ts
index 4043dfc..e9048b8 100644
--- a/packages/utils-stream/src/smooth-stream.ts
+++ b/packages/utils-stream/src/smooth-stream.ts
@@ -36,6 +36,8 @@ export const smoothStream = ({ chunking = 'word', delay = 10 }: SmoothStreamOpti
     transform: async (chunk, controller) => {
       buffer += chunk
 
+      // a global or sticky pattern remembers where it stopped in the previous buffer
+      chunkingRegexp.lastIndex = 0
       let match = chunkingRegexp.exec(buffer)
       while (match !== null) {
         // a match further on must not drop what precedes it
@@ -43,6 +45,7 @@ export const smoothStream = ({ chunking = 'word', delay = 10 }: SmoothStreamOpti
         controller.enqueue(result)
         buffer = buffer.slice(result.length)
 
+        chunkingRegexp.lastIndex = 0
         match = chunkingRegexp.exec(buffer)
 
         await sleep(delay)
-- 
2.43.0


From 1e366d69ed1765469572e918ae9cca8a5b0cfba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 23/41] fix: a transcription file without fileName keeps its
 own name

---
 packages/generate-transcription/src/index.ts | 6 +++++-
 packages/stream-transcription/src/index.ts   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/generate-transcription/src/index.ts b/packages/generate-transcription/src/index.ts
index 1cd6a09..83cbdc3 100644
--- a/packages/generate-transcription/src/index.ts
+++ b/packages/generate-transcription/src/index.ts
@@ -72,7 +72,11 @@ export const generateTranscription = async <
   const body = new FormData()
 
   body.append('model', options.model)
-  body.append('file', options.file, options.fileName)
+  // an explicit undefined would be sent as the name 'undefined'
+  if (options.fileName != null)
+    body.append('file', options.file, options.fileName)
+  else
+    body.append('file', options.file)
   body.append('response_format', options.responseFormat ?? 'json')
 
   // make ts happy
diff --git a/packages/stream-transcription/src/index.ts b/packages/stream-transcription/src/index.ts
index 62969c7..8d08ad0 100644
--- a/packages/stream-transcription/src/index.ts
+++ b/packages/stream-transcription/src/index.ts
@@ -43,7 +43,11 @@ export const streamTranscription = (options: WithUnknown<StreamTranscriptionOpti
     // Build FormData for file upload
     const body = new FormData()
     body.append('model', options.model)
-    body.append('file', options.file, options.fileName)
+    // an explicit undefined would be sent as the name 'undefined'
+    if (options.fileName != null)
+      body.append('file', options.file, options.fileName)
+    else
+      body.append('file', options.file)
     body.append('stream', 'true')
 
     if (options.language != null)
-- 
2.43.0


From ed96b160bc38a0ee0f49aa1c4fb76de34d018e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 24/41] fix: retrieveModel with the featherless and together
 providers returns the model

---
 .../providers/src/manual/providers/featherless.ts        | 9 ++++++++-
 .../providers/src/manual/providers/together-ai.ts        | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/featherless.ts b/packages-ext/providers/src/manual/providers/featherless.ts
index c6f7987..9cd88fa 100644
--- a/packages-ext/providers/src/manual/providers/featherless.ts
+++ b/packages-ext/providers/src/manual/providers/featherless.ts
@@ -14,6 +14,13 @@ export const createFeatherless = (apiKey: string, baseURL = 'https://api.feather
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.ok ? Response.json({ data: await res.json() as unknown[], object: 'list' }) : res),
+      .then(async (res) => {
+        if (!res.ok)
+          return res
+
+        // the model list is a bare array, a single model is not
+        const data = await res.json() as unknown
+        return Response.json(Array.isArray(data) ? { data, object: 'list' } : data)
+      }),
   }),
 )
diff --git a/packages-ext/providers/src/manual/providers/together-ai.ts b/packages-ext/providers/src/manual/providers/together-ai.ts
index 12bcf36..d9ef071 100644
--- a/packages-ext/providers/src/manual/providers/together-ai.ts
+++ b/packages-ext/providers/src/manual/providers/together-ai.ts
@@ -18,6 +18,13 @@ export const createTogetherAI = (apiKey: string, baseURL = 'https://api.together
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.ok ? Response.json({ data: await res.json() as unknown[], object: 'list' }) : res),
+      .then(async (res) => {
+        if (!res.ok)
+          return res
+
+        // the model list is a bare array, a single model is not
+        const data = await res.json() as unknown
+        return Response.json(Array.isArray(data) ? { data, object: 'list' } : data)
+      }),
   }),
 )
-- 
2.43.0


From 0a5e396215bf9876c1cdb537edc9d28ba6af053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 25/41] fix: smoothStream looped forever on a pattern that
 matches the empty string

---
 packages/utils-stream/src/smooth-stream.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/utils-stream/src/smooth-stream.ts b/packages/utils-stream/src/smooth-stream.ts
index e9048b8..abe06b8 100644
--- a/packages/utils-stream/src/smooth-stream.ts
+++ b/packages/utils-stream/src/smooth-stream.ts
@@ -39,7 +39,8 @@ export const smoothStream = ({ chunking = 'word', delay = 10 }: SmoothStreamOpti
       // a global or sticky pattern remembers where it stopped in the previous buffer
       chunkingRegexp.lastIndex = 0
       let match = chunkingRegexp.exec(buffer)
-      while (match !== null) {
+      // a pattern that matches the empty string here makes no progress: wait for more text
+      while (match !== null && match.index + match[0].length > 0) {
         // a match further on must not drop what precedes it
         const result = buffer.slice(0, match.index + match[0].length)
         controller.enqueue(result)
-- 
2.43.0


From ccf875a1cab6d5746edab1732fb2b6e1250166c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 26/41] fix: responses sent output items of other types back as
 null

---
 packages-ext/responses/src/utils/normalize-output.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages-ext/responses/src/utils/normalize-output.ts b/packages-ext/responses/src/utils/normalize-output.ts
index bc0b2ea..cc92243 100644
--- a/packages-ext/responses/src/utils/normalize-output.ts
+++ b/packages-ext/responses/src/utils/normalize-output.ts
@@ -12,5 +12,8 @@ export const normalizeOutput = (item: ItemField): ItemParam => {
       return item as AssistantMessageItemParam | DeveloperMessageItemParam | SystemMessageItemParam | UserMessageItemParam
     case 'reasoning':
       return item as ReasoningItemParam
+    default:
+      // an item this version does not know, such as the record of a hosted tool
+      return item as ItemParam
   }
 }
-- 
2.43.0


From 8cdf3d879fd6d74c24eb91197fc54abffd5fc0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 27/41] fix: a tool result that cannot be serialized failed the
 whole call

---
 packages/shared-chat/src/utils/execute-tool.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/shared-chat/src/utils/execute-tool.ts b/packages/shared-chat/src/utils/execute-tool.ts
index 315394a..8fcc849 100644
--- a/packages/shared-chat/src/utils/execute-tool.ts
+++ b/packages/shared-chat/src/utils/execute-tool.ts
@@ -191,9 +191,19 @@ export const executeTool = async <T = ToolMessage['content']>({ abortSignal, mes
     }
   }
 
+  let result: T
+  try {
+    result = wrap(completionToolResult.result)
+  }
+  catch (cause) {
+    // a result that cannot be sent is a failure of the tool
+    completionToolResult = createErrorToolResult(completionToolResult, completionToolResult.args, cause)
+    result = wrap(completionToolResult.result)
+  }
+
   return {
     completionToolCall,
     completionToolResult,
-    result: wrap(completionToolResult.result),
+    result,
   }
 }
-- 
2.43.0


From f03776aa4e99e729217fcb14b97e9e17f1d13b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 28/41] fix: tracing failed tools whose input or result cannot
 be serialized

---
 packages-ext/telemetry/src/utils/wrap-tool.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 5fef8ae..1b908ce 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -3,12 +3,22 @@ import type { Tool, ToolExecuteOptions } from 'xsai'
 
 import { recordSpan } from './record-span'
 
+/** tracing must not fail a tool whose input or result has no JSON form */
+const toAttribute = (value: unknown): string | undefined => {
+  try {
+    return JSON.stringify(value)
+  }
+  catch {
+    return undefined
+  }
+}
+
 export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
   execute: async (input: unknown, options: ToolExecuteOptions) =>
     recordSpan({
       attributes: {
         'gen_ai.operation.name': 'execute_tool',
-        'gen_ai.tool.call.arguments': JSON.stringify(input),
+        'gen_ai.tool.call.arguments': toAttribute(input),
         'gen_ai.tool.call.description': tool.function.description,
         'gen_ai.tool.call.id': options.toolCallId,
         'gen_ai.tool.call.name': tool.function.name,
@@ -17,7 +27,7 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
       tracer,
     }, async (span) => {
       const result = await tool.execute(input, options)
-      span.setAttribute('gen_ai.tool.call.result', JSON.stringify(result))
+      span.setAttributes({ 'gen_ai.tool.call.result': toAttribute(result) })
       return result
     }),
   function: tool.function,
-- 
2.43.0


From 6fd31da8e35a5143aa42b8cbb284fd402af1db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 29/41] fix: prepareStep failed the call when a tool result
 cannot be cloned

---
 .../shared-chat/src/utils/prepare-step.ts     | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/packages/shared-chat/src/utils/prepare-step.ts b/packages/shared-chat/src/utils/prepare-step.ts
index a2b89d6..07b85ef 100644
--- a/packages/shared-chat/src/utils/prepare-step.ts
+++ b/packages/shared-chat/src/utils/prepare-step.ts
@@ -15,6 +15,25 @@ export interface ResolvePrepareStepResult<TInput = Message[], TToolChoice = Tool
   toolChoice?: TToolChoice
 }
 
+/** tools may work with values that cannot be cloned, such as functions */
+const cloneOrKeep = <T>(value: T): T => {
+  try {
+    return structuredClone(value)
+  }
+  catch {
+    return value
+  }
+}
+
+const cloneStep = ({ toolResults, ...step }: CompletionStep): CompletionStep => ({
+  ...cloneOrKeep(step),
+  toolResults: toolResults.map(toolResult => ({
+    ...toolResult,
+    args: cloneOrKeep(toolResult.args),
+    result: cloneOrKeep(toolResult.result),
+  })),
+})
+
 export const resolvePrepareStep = async <TInput, TToolChoice>({ input, model, prepareStep, stepNumber, steps, toolChoice }: ResolvePrepareStepOptions<TInput, TToolChoice>): Promise<ResolvePrepareStepResult<TInput, TToolChoice>> => {
   const prepared = prepareStep == null
     ? undefined
@@ -22,7 +41,7 @@ export const resolvePrepareStep = async <TInput, TToolChoice>({ input, model, pr
         input: structuredClone(input),
         model,
         stepNumber,
-        steps: structuredClone(steps),
+        steps: steps.map(cloneStep),
       })
 
   return {
-- 
2.43.0


From 9801d693a333d694b6b3c5dd5e424d59bb2855ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 30/41] fix: a failure with a null or undefined reason was
 reported as success

---
 packages-ext/responses/src/utils/responses.ts     | 9 +++++++--
 packages-ext/telemetry/src/wrapped/stream-text.ts | 9 +++++++--
 packages/stream-text/src/index.ts                 | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index d6fe203..d2ffc66 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -374,12 +374,15 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   void (async () => {
+    // the reason itself may be null or undefined
+    let failed = false
     let finalError: unknown
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
 
@@ -387,10 +390,12 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      if (!failed)
+        finalError = err
+      failed = true
     }
 
-    if (finalError != null) {
+    if (failed) {
       errorControllers(finalError, fullCtrl, textCtrl, reasoningTextCtrl, eventCtrl)
 
       resultInput.reject(finalError)
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index fa16e0b..5c8774d 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -293,22 +293,27 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
   }
 
   void (async () => {
+    // the reason itself may be null or undefined
+    let failed = false
     let finalError: unknown
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
     try {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      if (!failed)
+        finalError = err
+      failed = true
     }
 
-    if (finalError != null) {
+    if (failed) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
       resultSteps.reject(finalError)
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index cddc0db..ecdd9b3 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -305,22 +305,27 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
   }
 
   void (async () => {
+    // the reason itself may be null or undefined
+    let failed = false
     let finalError: unknown
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
+      failed = true
       finalError = err
     }
     try {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      if (!failed)
+        finalError = err
+      failed = true
     }
 
-    if (finalError != null) {
+    if (failed) {
       errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
       resultSteps.reject(finalError)
-- 
2.43.0


From 998e54d8ce653363250a95e8aee3ce2dae424090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 31/41] fix: a streamed choice without delta failed the call

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 10 +++++++---
 packages/stream-text/src/index.ts                 | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 5c8774d..b8d75e2 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -137,6 +137,13 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
 
             const choice = chunk.choices[0]
 
+            if (choice.finish_reason != null)
+              finishReason = choice.finish_reason
+
+            // a choice may carry annotations only, e.g. content filter results
+            if (choice.delta == null)
+              return
+
             if (choice.delta.reasoning != null) {
               if (reasoningField !== 'reasoning')
                 reasoningField = 'reasoning'
@@ -160,9 +167,6 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
               pushReasoningText(choice.delta.reasoning_content)
             }
 
-            if (choice.finish_reason != null)
-              finishReason = choice.finish_reason
-
             const hasToolCalls = choice.delta.tool_calls != null && choice.delta.tool_calls.length > 0
             const content = choice.delta.content ?? choice.delta.refusal
 
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index ecdd9b3..857781a 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -164,6 +164,13 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
 
           const choice = chunk.choices[0]
 
+          if (choice.finish_reason != null)
+            finishReason = choice.finish_reason
+
+          // a choice may carry annotations only, e.g. content filter results
+          if (choice.delta == null)
+            return
+
           if (choice.delta.reasoning != null) {
             if (reasoningField !== 'reasoning')
               reasoningField = 'reasoning'
@@ -187,9 +194,6 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
             pushReasoningText(choice.delta.reasoning_content)
           }
 
-          if (choice.finish_reason != null)
-            finishReason = choice.finish_reason
-
           const hasToolCalls = choice.delta.tool_calls != null && choice.delta.tool_calls.length > 0
           const content = choice.delta.content ?? choice.delta.refusal
 
-- 
2.43.0


From cf527be82180df5d5e07cbd7a357b34fbe480d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 32/41] fix: merging providers leaves the provider passed first
 unchanged

---
 packages-ext/providers/src/utils/merge.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages-ext/providers/src/utils/merge.ts b/packages-ext/providers/src/utils/merge.ts
index d623af9..c51fae9 100644
--- a/packages-ext/providers/src/utils/merge.ts
+++ b/packages-ext/providers/src/utils/merge.ts
@@ -1,4 +1,4 @@
 import type { UnionToIntersection } from 'type-fest'
 
 export const merge = <T extends object[]>(...arr: T): UnionToIntersection<T[number]> =>
-  Object.assign(arr[0], ...arr.slice(1)) as UnionToIntersection<T[number]>
+  Object.assign({}, ...arr) as UnionToIntersection<T[number]>
-- 
2.43.0


From e7388192a30e4e4f308f28f8fc315a982de5c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 33/41] fix: telemetry embeddings no longer fail when the
 provider reports no usage

---
 packages-ext/telemetry/src/wrapped/embed.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/embed.ts b/packages-ext/telemetry/src/wrapped/embed.ts
index 8aa9786..8ecec0c 100644
--- a/packages-ext/telemetry/src/wrapped/embed.ts
+++ b/packages-ext/telemetry/src/wrapped/embed.ts
@@ -18,7 +18,7 @@ export const embed = async (options: WithTelemetry<EmbedOptions>): Promise<Embed
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbed(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    span.setAttribute('gen_ai.usage.input_tokens', result.usage?.prompt_tokens)
     return result
   })
 }
@@ -33,7 +33,7 @@ export const embedMany = async (options: WithTelemetry<EmbedManyOptions>): Promi
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedManyResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbedMany(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    span.setAttribute('gen_ai.usage.input_tokens', result.usage?.prompt_tokens)
     return result
   })
 }
-- 
2.43.0


From 0f35d856eb64da0cd4ec98964e266d15496b2684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 34/41] fix: headers the caller gives replace the default ones
 whatever their case

---
 packages/shared/src/utils/post-json.ts       |  5 +----
 packages/shared/src/utils/request-headers.ts | 21 ++++++++++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/packages/shared/src/utils/post-json.ts b/packages/shared/src/utils/post-json.ts
index 258b3fa..ffecd3c 100644
--- a/packages/shared/src/utils/post-json.ts
+++ b/packages/shared/src/utils/post-json.ts
@@ -8,10 +8,7 @@ import { responseCatch } from './response-catch'
 export const postJSON = async (path: string, options: WithUnknown<CommonRequestOptions>) =>
   (options.fetch ?? globalThis.fetch)(requestURL(path, options.baseURL), {
     body: requestBody(options),
-    headers: requestHeaders({
-      'Content-Type': 'application/json',
-      ...(options.headers instanceof Headers ? Object.fromEntries(options.headers) : options.headers),
-    }, options.apiKey),
+    headers: requestHeaders(options.headers, options.apiKey, { 'Content-Type': 'application/json' }),
     method: 'POST',
     signal: options.abortSignal,
   }).then(responseCatch)
diff --git a/packages/shared/src/utils/request-headers.ts b/packages/shared/src/utils/request-headers.ts
index c6a0ce6..a84ff14 100644
--- a/packages/shared/src/utils/request-headers.ts
+++ b/packages/shared/src/utils/request-headers.ts
@@ -2,7 +2,20 @@ import type { CommonRequestOptions } from '../types'
 
 import { clean } from './clean'
 
-export const requestHeaders = (headers?: CommonRequestOptions['headers'], apiKey?: CommonRequestOptions['apiKey']) => clean({
-  Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined,
-  ...(headers instanceof Headers ? Object.fromEntries(headers) : headers),
-})
+export const requestHeaders = (
+  headers?: CommonRequestOptions['headers'],
+  apiKey?: CommonRequestOptions['apiKey'],
+  defaults?: Record<string, string>,
+) => {
+  const given = headers instanceof Headers ? Object.fromEntries(headers) : headers
+  // header names are case-insensitive, sending both would join the two values
+  const names = new Set(Object.keys(given ?? {}).map(name => name.toLowerCase()))
+
+  return clean({
+    ...Object.fromEntries(Object.entries({
+      Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined,
+      ...defaults,
+    }).filter(([name]) => !names.has(name.toLowerCase()))),
+    ...given,
+  })
+}
-- 
2.43.0


From bea662687d2b7bce9308668142ab647c396a4871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 35/41] fix: label webp images as image/webp

---
 packages/generate-image/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/generate-image/src/index.ts b/packages/generate-image/src/index.ts
index 8210ac9..b84f124 100644
--- a/packages/generate-image/src/index.ts
+++ b/packages/generate-image/src/index.ts
@@ -61,7 +61,7 @@ const mimeTypes = {
   'AAAAIGZ0eXBhdmlm': 'image/avif',
   'iVBORw0KGgo': 'image/png',
   'R0lGOD': 'image/gif',
-  'UklGRg==': 'image/webp',
+  'UklGR': 'image/webp',
 }
 
 /** @internal */
-- 
2.43.0


From 5ee17bca68e3332db785af5738bb4d321ab34cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 36/41] fix: report a Responses stream error event whose
 message is at the top level as RemoteAPIError

---
 packages-ext/responses/src/utils/responses.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index d2ffc66..1ae733f 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -230,7 +230,10 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
     return res.body!
       .pipeThrough(new TextDecoderStream())
       .pipeThrough(new EventSourceParserStream())
-      .pipeThrough(new JsonMessageTransformStream<FullEvent>())
+      .pipeThrough(new JsonMessageTransformStream<FullEvent>({
+        // an error event may carry its message either in `error` or at the top level
+        isErrorResponse: event => event != null && typeof event === 'object' && (event.type === 'error' || 'error' in event),
+      }))
       .getReader()
   }
 
-- 
2.43.0


From 38d8cbb2917aec4e85fd986d296772233d3dea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 37/41] fix: read downloaded images without FileReader, which
 only browsers have

---
 packages/generate-image/src/index.ts | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/packages/generate-image/src/index.ts b/packages/generate-image/src/index.ts
index b84f124..c4f286d 100644
--- a/packages/generate-image/src/index.ts
+++ b/packages/generate-image/src/index.ts
@@ -82,12 +82,13 @@ const responseBlobAsDataURL = async (res: Response): Promise<string> =>
       const blob = await res.blob()
 
       try {
-        return await new Promise<string>((resolve, reject) => {
-          const reader = new FileReader()
-          reader.onloadend = () => resolve(reader.result as string)
-          reader.onerror = reject
-          reader.readAsDataURL(blob)
-        })
+        // FileReader only exists in browsers
+        const bytes = new Uint8Array(await blob.arrayBuffer())
+        let binary = ''
+        for (const byte of bytes)
+          binary += String.fromCharCode(byte)
+
+        return `data:${blob.type || 'application/octet-stream'};base64,${btoa(binary)}`
       }
       catch {
         throw new Error(`Failed to parse response blob, response URL: ${res.url}`)
-- 
2.43.0


From 903412623f59b9da433e60513677df7502f60735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 38/41] fix: keep the signal and the referrer of a Request that
 is sent again

The signal of a cloned Request can be disconnected by a garbage collection in
Node, so that aborting the call had no effect on the request in flight.
---
 packages-top/xsfetch/src/index.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index 40e3df0..5ff77ba 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -20,8 +20,15 @@ export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): type
   const options: Readonly<CreateFetchOptions> = Object.assign({}, defaults, userOptions)
 
   const xsfetch = async (retriesLeft: number, input: Request | string | URL, init?: RequestInit) => {
-    // the body of a Request can only be sent once
-    const res = await fetch(retriesLeft > 0 && input instanceof Request ? input.clone() : input, init)
+    const res = retriesLeft > 0 && input instanceof Request
+      // the body of a Request can only be sent once, and the signal of a clone may not survive a garbage collection
+      ? await fetch(input.clone(), {
+        referrer: input.referrer,
+        referrerPolicy: input.referrerPolicy,
+        signal: input.signal,
+        ...init,
+      })
+      : await fetch(input, init)
 
     if (res.ok || retriesLeft === 0 || !options.retryStatusCodes.includes(res.status))
       return res
-- 
2.43.0


From 442fee2983a891de632f12e9839c4733fdda0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 39/41] fix: release the body when onEvent throws at the start
 of a step

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 4 ++--
 packages/stream-text/src/index.ts                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index b8d75e2..1ad0958 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -115,8 +115,6 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       // reported per step, possibly on several chunks: the last one counts
       usage = undefined
 
-      pushEvent({ type: 'step.start' })
-
       await stream!
         .pipeThrough(new TextDecoderStream())
         .pipeThrough(new EventSourceParserStream())
@@ -126,6 +124,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
             errorControllers(reason, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
           },
           close: () => {},
+          // a callback that throws here must still release the body
+          start: async () => pushEvent({ type: 'step.start' }),
           // eslint-disable-next-line sonarjs/cognitive-complexity
           write: (chunk) => {
             fullCtrl.current?.enqueue(chunk)
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 857781a..7312789 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -142,8 +142,6 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     // reported per step, possibly on several chunks: the last one counts
     usage = undefined
 
-    pushEvent({ type: 'step.start' })
-
     await stream!
       .pipeThrough(new TextDecoderStream())
       .pipeThrough(new EventSourceParserStream())
@@ -153,6 +151,8 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
           errorControllers(reason, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
         },
         close: () => {},
+        // a callback that throws here must still release the body
+        start: async () => pushEvent({ type: 'step.start' }),
         // eslint-disable-next-line sonarjs/cognitive-complexity
         write: (chunk) => {
           fullCtrl.current?.enqueue(chunk)
-- 
2.43.0


From 35783d8ea6125fb9e17a08b074f7b486421fd154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:57 +0000
Subject: [PATCH 40/41] fix: take the tag name of extractReasoning literally

---
 packages/utils-reasoning/src/extract-reasoning.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning.ts b/packages/utils-reasoning/src/extract-reasoning.ts
index a76b242..8ccfb7a 100644
--- a/packages/utils-reasoning/src/extract-reasoning.ts
+++ b/packages/utils-reasoning/src/extract-reasoning.ts
@@ -21,7 +21,9 @@ export const extractReasoning = (text: string, options: ExtractReasoningOptions
   const separator = options.separator ?? '\n'
   const fullText = options.startWithReasoning ? startTag + text : text
 
-  const regex = new RegExp(`${startTag}(.*?)${endTag}`, 'gs')
+  // a tag name is not a pattern
+  const escape = (tag: string) => tag.replace(/[$()*+.?[\\\]^{|}]/g, '\\$&')
+  const regex = new RegExp(`${escape(startTag)}(.*?)${escape(endTag)}`, 'gs')
   const reasonMatches = [...fullText.matchAll(regex)]
 
   if (reasonMatches.length === 0) {
-- 
2.43.0


From e1dc5699af90bbf774f646a739910bb30ba96d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:57 +0000
Subject: [PATCH 41/41] fix: separate only what extractReasoning found, as the
 stream does

---
 packages/utils-reasoning/src/extract-reasoning.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning.ts b/packages/utils-reasoning/src/extract-reasoning.ts
index 8ccfb7a..03cc979 100644
--- a/packages/utils-reasoning/src/extract-reasoning.ts
+++ b/packages/utils-reasoning/src/extract-reasoning.ts
@@ -33,7 +33,7 @@ export const extractReasoning = (text: string, options: ExtractReasoningOptions
     }
   }
 
-  const reasoning = reasonMatches.map(match => match[1]).join(separator)
+  const reasoning = reasonMatches.map(match => match[1]).filter(block => block.length > 0).join(separator)
 
   let startIndex = 0
   const texts = reasonMatches.reduce((acc, match, idx) => {
@@ -43,7 +43,7 @@ export const extractReasoning = (text: string, options: ExtractReasoningOptions
     startIndex = match.index + match[0].length
 
     // last match
-    if (idx === reasonMatches.length - 1) {
+    if (idx === reasonMatches.length - 1 && startIndex < fullText.length) {
       acc.push(fullText.slice(startIndex))
     }
 
-- 
2.43.0

