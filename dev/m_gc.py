import sys; sys.path.insert(0,'/tmp')
from mut import run
S='NULLC/StdLib.cpp'; X='NULLC/Executor_Common.cpp'; G=['gcphases','gcmark']
run([
('nomark pool64',[(S,'	pool64.Mark(number);\n','')],G),
('nofree recheck',[(S,'''			// Check flags again, finalizers might have some objects reachable
			if(!(marker & (NULLC::OBJECT_VISIBLE | NULLC::OBJECT_FREED)))
			{
				Free''','''			if(!(marker & NULLC::OBJECT_FREED))
			{
				Free''')],G),
('no pending roots',[(S,'	GC::MarkPendingRoots();\n','')],G),
('order',[(S,'	FinalizePending();\n\n	// Free memory that remains unreachable\n	FreePending();','	FreePending();\n	FinalizePending();')],G),
('skip last',[(S,('i < (curr == activePages ? lastNum : countInBlock)',2),'i + 1 < (curr == activePages ? lastNum : countInBlock)')],G),
('skip first',[(S,('for(unsigned int i = 0; i < (curr == activePages ? lastNum : countInBlock)',2),'for(unsigned int i = 1; i < (curr == activePages ? lastNum : countInBlock)')],G),
('no visible in finalize',[(S,('			// Mark block as used\n			marker |= NULLC::OBJECT_VISIBLE;\n',1),'')],G),
('no array trace big',[(S,'			GC::CheckArrayElements(base + sizeof(markerType) + arrayPadding, count, typeInfo);\n		}\n		else\n		{\n			GC::CheckVariable(base + sizeof(markerType), typeInfo);\n		}\n\n		NULLC::Fin','		(void)count;(void)base;}\n		else\n		{\n			GC::CheckVariable(base + sizeof(markerType), typeInfo);\n		}\n\n		NULLC::Fin')],G),
('finalized not set',[(S,'		marker |= NULLC::OBJECT_FINALIZED;\n','')],G),
('finalized ignored',[(S,'(marker & NULLC::OBJECT_FINALIZABLE) && !(marker & NULLC::OBJECT_FINALIZED))\n					{','(marker & NULLC::OBJECT_FINALIZABLE))\n					{')],G),
('getbase misses pool256',[(S,'	if(void *base = pool256.GetBasePointer(ptr))\n		return base;\n','')],G),
('class: pointers skip 0',[(X,'for(unsigned n = 0; n < realType->pointerCount; n++)','for(unsigned n = 1; n < realType->pointerCount; n++)')],G),
('func not traced',[(X,'			for(unsigned i = 0; i < size; i++, ptr += elementType.size)\n				CheckFunction(ptr);\n','')],G),
('no context',[(X,'				GC::CheckPointer(ptr);\n','				(void)ptr;\n')],G),
('x86 stack',[(X,'''	if(execID == NULLC_X86)
	{
		ExecutorX86 *exec = (ExecutorX86*)unknownExec;
		tempStackBase = (char*)exec->GetStackStart();
		tempStackTop = (char*)exec->GetStackEnd();
	}
''','')],G),
('not queue',[(X,'				next->push_back((char*)basePtr);\n','')],G),
('visible not set',[(X,'*marker |= OBJECT_VISIBLE;\n\n			GC_DEBUG_PRINT("\\tMarked as used\\n','GC_DEBUG_PRINT("\\tMarked as used\\n')],G),
('extendable pc',[(X,'		if(!realType->pointerCount)\n			return;\n\n		switch(type.subCat)','		if(!type.pointerCount)\n			return;\n\n		switch(type.subCat)')],G),
('extendable class',[(X,'CheckClass(ptr, *realType);','CheckClass(ptr, type);')],G),
('autoarr',[(X,'			// Check target data\n			CheckPointer((char*)&data->ptr);\n','')],G),
('clear no reset',[(S,'	pool512.Reset();\n','')],G),
('ext context',[(X,'if(func.contextType != ~0u)\n			CheckPointer','if(func.contextType == ~0u)\n			CheckPointer')],G),
('refactor: helper',[(X,'			CheckPointer((char*)&data->ptr);\n		}\n		else if','			TracePtr((char*)&data->ptr);\n		}\n		else if'),(X,'	// Function that checks classes for pointers\n','	void TracePtr(char *p){ if(!p) return; CheckPointer(p); }\n')],G),
('refactor: while loop',[(X,'''			for(unsigned i = 0; i < size; i++, ptr += elementType.size)
				CheckFunction(ptr);
''','''			while(size--) { CheckFunction(ptr); ptr += elementType.size; }
''')],G),
('refactor: if chain',[(X,'''		switch(type.subCat)
		{
		case ExternTypeInfo::CAT_NONE:
			break;
		case ExternTypeInfo::CAT_ARRAY:
			CheckArray(ptr, type);
			break;
		case ExternTypeInfo::CAT_POINTER:
			CheckPointer(ptr);
			break;
		case ExternTypeInfo::CAT_FUNCTION:
			CheckFunction(ptr);
			break;
		case ExternTypeInfo::CAT_CLASS:
			CheckClass(ptr, *realType);
			break;
		}''','''		if(type.subCat == ExternTypeInfo::CAT_ARRAY) CheckArray(ptr, type);
		else if(type.subCat == ExternTypeInfo::CAT_POINTER) CheckPointer(ptr);
		else if(type.subCat == ExternTypeInfo::CAT_FUNCTION) CheckFunction(ptr);
		else if(type.subCat == ExternTypeInfo::CAT_CLASS) CheckClass(ptr, *realType);''')],G),
('refactor: ptr loop big',[(S,'''	for(unsigned i = 0; i < blocksToFree.size(); i++)
	{
		Range &curr = blocksToFree[i];
''','''	for(Range *it = blocksToFree.data, *e = blocksToFree.data + blocksToFree.size(); it != e; ++it)
	{
		Range &curr = *it;
''')],G),
('refactor: split',[(S,'	if(!collectionEnabled)\n		return;\n','	if(collectionEnabled == false)\n		return;\n'),(S,'''	pool8.Mark(number);
	pool16.Mark(number);
	pool32.Mark(number);
	pool64.Mark(number);''','''	pool64.Mark(number);
	pool32.Mark(number);
	MarkSmall(number);'''),(S,'void NULLC::MarkMemory(','namespace NULLC { static void MarkSmall(unsigned n) { pool8.Mark(n); pool16.Mark(n); } }\nvoid NULLC::MarkMemory(')],G),
])
