// crgextract: resolved-program extractor for the RenderGraph static analyses.
//
// Parses the given translation units with the real build's flags and writes, for every function
// defined in the repository (free functions, methods, constructors, destructors, lambdas and the
// template instantiations actually used), a typed and name-resolved tree, plus every repository
// record, enumeration and global. Implicit conversions that do not change a value are stripped;
// integer constant expressions are folded by the front end.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Lex/Lexer.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string gRepo;
static std::set< std::string > gSeenFuncs, gSeenRecords, gSeenEnums, gSeenGlobals;
static int64_t gNextId = 1;
// where the units do not compile: functions containing such a place are not reported
static std::set< std::pair< std::string, unsigned > > gErrors;
static bool gLostErrors = false;

struct ErrorCollector
	: public DiagnosticConsumer
{
	void HandleDiagnostic( DiagnosticsEngine::Level level, Diagnostic const & info )override
	{
		DiagnosticConsumer::HandleDiagnostic( level, info );
		if ( level < DiagnosticsEngine::Error )
			return;
		llvm::SmallString< 200 > text;
		info.FormatDiagnostic( text );
		if ( !info.hasSourceManager() || info.getLocation().isInvalid() || level == DiagnosticsEngine::Fatal )
		{
			gLostErrors = true;
			llvm::errs() << "error: " << text << "\n";
			return;
		}
		auto & sm = info.getSourceManager();
		auto loc = sm.getPresumedLoc( sm.getExpansionLoc( info.getLocation() ) );
		gErrors.insert( { loc.getFilename(), loc.getLine() } );
		llvm::errs() << loc.getFilename() << ":" << loc.getLine() << ": error: " << text << "\n";
	}
};

namespace
{
	class Extractor
		: public RecursiveASTVisitor< Extractor >
	{
	public:
		Extractor( ASTContext & ctx, json::OStream & out )
			: m_ctx{ ctx }
			, m_out{ out }
			, m_policy{ ctx.getPrintingPolicy() }
		{
			m_policy.SuppressTagKeyword = true;
			m_policy.FullyQualifiedName = true;
			m_policy.PrintCanonicalTypes = true;
		}

		bool shouldVisitTemplateInstantiations()const { return true; }
		bool shouldVisitImplicitCode()const { return true; }

		bool VisitFunctionDecl( FunctionDecl * fn )
		{
			if ( !fn->isThisDeclarationADefinition() && !( fn->isDefaulted() && !fn->isDeleted() ) )
				return true;
			if ( fn->isDependentContext() || fn->isDeleted() )
				return true;
			if ( !inRepo( fn->getLocation() ) )
				return true;
			if ( auto * m = dyn_cast< CXXMethodDecl >( fn ) )
				if ( m->getParent()->isLambda() )
					return true;	// emitted with its enclosing function
			emitFunction( fn );
			return true;
		}

		bool VisitCXXRecordDecl( CXXRecordDecl * rec )
		{
			if ( !rec->isThisDeclarationADefinition() || rec->isDependentContext() || rec->isLambda() || !inRepo( rec->getLocation() ) )
				return true;
			auto name = qual( rec );
			if ( auto * sp = dyn_cast< ClassTemplateSpecializationDecl >( rec ) )
				name = typeStr( m_ctx.getRecordType( rec ) );
			if ( !gSeenRecords.insert( name ).second )
				return true;
			json::Object o;
			o[ "d" ] = "record";
			o[ "name" ] = name;
			o[ "union" ] = rec->isUnion();
			o[ "file" ] = fileOf( rec->getLocation() );
			o[ "line" ] = lineOf( rec->getLocation() );
			json::Array fields;
			for ( auto * f : rec->fields() )
			{
				json::Object fo;
				fo[ "n" ] = f->getNameAsString();
				fo[ "t" ] = typeStr( f->getType() );
				fo[ "acc" ] = int( f->getAccess() );
				fo[ "l" ] = lineOf( f->getLocation() );
				if ( f->isMutable() ) fo[ "mut" ] = true;
				if ( auto * in = f->getInClassInitializer() )
					fo[ "init" ] = expr( in );
				fields.push_back( std::move( fo ) );
			}
			o[ "fields" ] = std::move( fields );
			json::Array bases;
			for ( auto & b : rec->bases() )
				bases.push_back( typeStr( b.getType() ) );
			o[ "bases" ] = std::move( bases );
			json::Array methods;
			for ( auto * m : rec->methods() )
			{
				json::Object mo;
				mo[ "n" ] = m->getNameAsString();
				mo[ "u" ] = usr( m );
				mo[ "acc" ] = int( m->getAccess() );
				mo[ "l" ] = lineOf( m->getLocation() );
				if ( m->isVirtual() ) mo[ "virt" ] = true;
				if ( m->isPureVirtual() ) mo[ "pure" ] = true;
				if ( m->isStatic() ) mo[ "static" ] = true;
				if ( m->isImplicit() ) mo[ "implicit" ] = true;
				if ( m->isDeleted() ) mo[ "deleted" ] = true;
				if ( m->isDefaulted() ) mo[ "defaulted" ] = true;
				if ( m->isConst() ) mo[ "const" ] = true;
				if ( m->size_overridden_methods() )
				{
					json::Array ov;
					for ( auto * x : m->overridden_methods() )
						ov.push_back( usr( x ) );
					mo[ "over" ] = std::move( ov );
				}
				mo[ "ret" ] = typeStr( m->getReturnType() );
				json::Array ps;
				for ( auto * p : m->parameters() )
					ps.push_back( json::Object{ { "n", p->getNameAsString() }, { "t", typeStr( p->getType() ) } } );
				mo[ "params" ] = std::move( ps );
				methods.push_back( std::move( mo ) );
			}
			o[ "methods" ] = std::move( methods );
			put( std::move( o ) );
			return true;
		}

		bool VisitEnumDecl( EnumDecl * en )
		{
			if ( !en->isThisDeclarationADefinition() )
				return true;
			auto name = qual( en );
			bool repo = inRepo( en->getLocation() );
			bool vk = name.size() > 2 && name.compare( 0, 2, "Vk" ) == 0;
			if ( ( !repo && !vk ) || !gSeenEnums.insert( name ).second )
				return true;
			json::Object o;
			o[ "d" ] = "enum";
			o[ "name" ] = name;
			json::Array vals;
			for ( auto * c : en->enumerators() )
				vals.push_back( json::Array{ c->getNameAsString(), c->getInitVal().getExtValue() } );
			o[ "vals" ] = std::move( vals );
			put( std::move( o ) );
			return true;
		}

		bool VisitVarDecl( VarDecl * v )
		{
			if ( v->isLocalVarDecl() || isa< ParmVarDecl >( v ) || v->isLocalVarDeclOrParm() )
				return true;
			if ( !inRepo( v->getLocation() ) || v->getDeclContext()->isDependentContext() )
				return true;
			if ( !v->isFileVarDecl() && !v->isStaticDataMember() )
				return true;
			auto name = qual( v );
			if ( !gSeenGlobals.insert( name + usr( v ) ).second )
				return true;
			json::Object o;
			o[ "d" ] = "global";
			o[ "name" ] = name;
			o[ "t" ] = typeStr( v->getType() );
			o[ "const" ] = v->getType().isConstQualified();
			o[ "file" ] = fileOf( v->getLocation() );
			o[ "line" ] = lineOf( v->getLocation() );
			if ( v->getInit() && !v->getInit()->isValueDependent() )
				o[ "init" ] = expr( v->getInit() );
			put( std::move( o ) );
			return true;
		}

	private:
		void put( json::Object o )
		{
			m_out.value( json::Value( std::move( o ) ) );
		}

		std::string fileOf( SourceLocation loc )
		{
			auto & sm = m_ctx.getSourceManager();
			auto f = sm.getFilename( sm.getExpansionLoc( loc ) ).str();
			return f;
		}
		int64_t lineOf( SourceLocation loc )
		{
			auto & sm = m_ctx.getSourceManager();
			return sm.getExpansionLineNumber( loc );
		}
		bool inRepo( SourceLocation loc )
		{
			if ( loc.isInvalid() )
				return false;
			auto f = fileOf( loc );
			return f.compare( 0, gRepo.size(), gRepo ) == 0 || f.find( "/engine/witness/" ) != std::string::npos;
		}
		std::string qual( NamedDecl const * d )
		{
			std::string s;
			llvm::raw_string_ostream os( s );
			PrintingPolicy pol = m_policy;
			d->printQualifiedName( os, pol );
			return os.str();
		}
		std::string usr( Decl const * d )
		{
			llvm::SmallString< 128 > buf;
			d = d->getCanonicalDecl();
			if ( index::generateUSRForDecl( d, buf ) )
				return "?" + std::to_string( idOf( d ) );
			std::string s = buf.str().str();
			// file-local entities: USRs of anonymous-namespace / static functions carry the file name
			return s;
		}
		std::string typeStr( QualType t )
		{
			return t.getCanonicalType().getAsString( m_policy );
		}
		int64_t idOf( Decl const * d )
		{
			d = d->getCanonicalDecl();
			auto it = m_ids.find( d );
			if ( it == m_ids.end() )
				it = m_ids.emplace( d, gNextId++ ).first;
			return it->second;
		}

		bool broken( SourceRange r )
		{
			auto & sm = m_ctx.getSourceManager();
			auto b = sm.getPresumedLoc( sm.getExpansionLoc( r.getBegin() ) );
			auto e = sm.getPresumedLoc( sm.getExpansionLoc( r.getEnd() ) );
			if ( b.isInvalid() || e.isInvalid() )
				return true;
			for ( auto & x : gErrors )
				if ( x.first == b.getFilename() && x.second >= b.getLine() && x.second <= e.getLine() )
					return true;
			return false;
		}

		void emitFunction( FunctionDecl * fn )
		{
			auto u = usr( fn );
			auto * def = fn;
			if ( !def->getBody() && !def->isDefaulted() )
				return;
			if ( !gErrors.empty() && ( def->isInvalidDecl() || broken( def->getSourceRange() ) ) )
				return;
			if ( !gSeenFuncs.insert( u ).second )
				return;
			put( function( def, u ) );
		}

		json::Object function( FunctionDecl * fn, std::string const & u )
		{
			json::Object o;
			o[ "d" ] = "func";
			o[ "u" ] = u;
			o[ "q" ] = qual( fn );
			o[ "n" ] = fn->getNameAsString();
			o[ "file" ] = fileOf( fn->getLocation() );
			o[ "line" ] = lineOf( fn->getLocation() );
			o[ "ret" ] = typeStr( fn->getReturnType() );
			if ( fn->isDefaulted() ) o[ "defaulted" ] = true;
			if ( fn->isImplicit() ) o[ "implicit" ] = true;
			if ( fn->isVariadic() ) o[ "variadic" ] = true;
			if ( !fn->isExternallyVisible() ) o[ "internal" ] = true;
			json::Array ps;
			for ( auto * p : fn->parameters() )
			{
				json::Object po;
				po[ "id" ] = idOf( p );
				po[ "n" ] = p->getNameAsString();
				po[ "t" ] = typeStr( p->getType() );
				if ( p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg() )
					po[ "d" ] = expr( p->getDefaultArg() );
				ps.push_back( std::move( po ) );
			}
			o[ "params" ] = std::move( ps );
			if ( auto * m = dyn_cast< CXXMethodDecl >( fn ) )
			{
				auto * rec = m->getParent();
				o[ "cls" ] = isa< ClassTemplateSpecializationDecl >( rec ) ? typeStr( m_ctx.getRecordType( rec ) ) : qual( rec );
				if ( m->isStatic() ) o[ "static" ] = true;
				if ( m->isConst() ) o[ "const" ] = true;
				if ( m->isVirtual() ) o[ "virt" ] = true;
				o[ "acc" ] = int( m->getAccess() );
				if ( m->isCopyAssignmentOperator() ) o[ "copyassign" ] = true;
				if ( m->isMoveAssignmentOperator() ) o[ "moveassign" ] = true;
			}
			if ( auto * c = dyn_cast< CXXConstructorDecl >( fn ) )
			{
				o[ "ctor" ] = true;
				if ( c->isCopyConstructor() ) o[ "copyctor" ] = true;
				if ( c->isMoveConstructor() ) o[ "movector" ] = true;
				json::Array inits;
				for ( auto * in : c->inits() )
				{
					json::Object io;
					if ( in->isAnyMemberInitializer() )
						io[ "field" ] = in->getAnyMember()->getNameAsString();
					else if ( in->isBaseInitializer() )
						io[ "base" ] = typeStr( QualType( in->getBaseClass(), 0 ) );
					else
						io[ "delegate" ] = true;
					io[ "e" ] = expr( in->getInit() );
					io[ "l" ] = lineOf( in->getSourceLocation().isValid() ? in->getSourceLocation() : fn->getLocation() );
					inits.push_back( std::move( io ) );
				}
				o[ "inits" ] = std::move( inits );
			}
			if ( isa< CXXDestructorDecl >( fn ) )
				o[ "dtor" ] = true;
			if ( fn->getBody() )
				o[ "body" ] = stmt( fn->getBody() );
			return o;
		}

		//-------------------------------------------------------------------------------- statements
		json::Value stmt( Stmt const * s )
		{
			if ( !s )
				return nullptr;
			json::Object o;
			o[ "l" ] = lineOf( s->getBeginLoc() );
			if ( auto * c = dyn_cast< CompoundStmt >( s ) )
			{
				o[ "k" ] = "block";
				json::Array a;
				for ( auto * x : c->body() )
					a.push_back( stmt( x ) );
				o[ "s" ] = std::move( a );
				return o;
			}
			if ( auto * d = dyn_cast< DeclStmt >( s ) )
			{
				o[ "k" ] = "decls";
				json::Array a;
				for ( auto * x : d->decls() )
					if ( auto * v = dyn_cast< VarDecl >( x ) )
						a.push_back( var( v ) );
				o[ "s" ] = std::move( a );
				return o;
			}
			if ( auto * i = dyn_cast< IfStmt >( s ) )
			{
				o[ "k" ] = "if";
				if ( i->isConstexpr() ) o[ "cexpr" ] = true;
				if ( i->getInit() ) o[ "init" ] = stmt( i->getInit() );
				if ( auto * cv = i->getConditionVariable() ) o[ "cvar" ] = var( cv );
				o[ "c" ] = expr( i->getCond() );
				o[ "t" ] = stmt( i->getThen() );
				if ( i->getElse() ) o[ "e" ] = stmt( i->getElse() );
				return o;
			}
			if ( auto * w = dyn_cast< SwitchStmt >( s ) )
			{
				o[ "k" ] = "switch";
				if ( w->getInit() ) o[ "init" ] = stmt( w->getInit() );
				if ( auto * cv = w->getConditionVariable() ) o[ "cvar" ] = var( cv );
				o[ "c" ] = expr( w->getCond() );
				o[ "b" ] = stmt( w->getBody() );
				return o;
			}
			if ( auto * c = dyn_cast< CaseStmt >( s ) )
			{
				o[ "k" ] = "case";
				o[ "v" ] = expr( c->getLHS() );
				if ( c->getRHS() ) o[ "v2" ] = expr( c->getRHS() );
				o[ "s" ] = stmt( c->getSubStmt() );
				return o;
			}
			if ( auto * c = dyn_cast< DefaultStmt >( s ) )
			{
				o[ "k" ] = "default";
				o[ "s" ] = stmt( c->getSubStmt() );
				return o;
			}
			if ( auto * f = dyn_cast< ForStmt >( s ) )
			{
				o[ "k" ] = "for";
				if ( f->getInit() ) o[ "i" ] = stmt( f->getInit() );
				if ( auto * cv = f->getConditionVariable() ) o[ "cvar" ] = var( cv );
				if ( f->getCond() ) o[ "c" ] = expr( f->getCond() );
				if ( f->getInc() ) o[ "n" ] = expr( f->getInc() );
				o[ "b" ] = stmt( f->getBody() );
				return o;
			}
			if ( auto * f = dyn_cast< CXXForRangeStmt >( s ) )
			{
				o[ "k" ] = "rfor";
				if ( f->getInit() ) o[ "i" ] = stmt( f->getInit() );
				o[ "v" ] = var( f->getLoopVariable() );
				o[ "r" ] = expr( f->getRangeInit() );
				o[ "b" ] = stmt( f->getBody() );
				return o;
			}
			if ( auto * w = dyn_cast< WhileStmt >( s ) )
			{
				o[ "k" ] = "while";
				if ( auto * cv = w->getConditionVariable() ) o[ "cvar" ] = var( cv );
				o[ "c" ] = expr( w->getCond() );
				o[ "b" ] = stmt( w->getBody() );
				return o;
			}
			if ( auto * w = dyn_cast< DoStmt >( s ) )
			{
				o[ "k" ] = "do";
				o[ "c" ] = expr( w->getCond() );
				o[ "b" ] = stmt( w->getBody() );
				return o;
			}
			if ( auto * r = dyn_cast< ReturnStmt >( s ) )
			{
				o[ "k" ] = "return";
				if ( r->getRetValue() ) o[ "e" ] = expr( r->getRetValue() );
				return o;
			}
			if ( isa< BreakStmt >( s ) ) { o[ "k" ] = "break"; return o; }
			if ( isa< ContinueStmt >( s ) ) { o[ "k" ] = "continue"; return o; }
			if ( isa< NullStmt >( s ) ) { o[ "k" ] = "nop"; return o; }
			if ( auto * a = dyn_cast< AttributedStmt >( s ) )
				return stmt( a->getSubStmt() );
			if ( auto * l = dyn_cast< LabelStmt >( s ) )
			{
				o[ "k" ] = "label";
				o[ "s" ] = stmt( l->getSubStmt() );
				return o;
			}
			if ( isa< GotoStmt >( s ) || isa< IndirectGotoStmt >( s ) ) { o[ "k" ] = "goto"; return o; }
			if ( auto * t = dyn_cast< CXXTryStmt >( s ) )
			{
				o[ "k" ] = "try";
				o[ "b" ] = stmt( t->getTryBlock() );
				json::Array hs;
				for ( unsigned i = 0; i < t->getNumHandlers(); ++i )
				{
					auto * h = t->getHandler( i );
					json::Object ho;
					if ( h->getExceptionDecl() )
					{
						ho[ "t" ] = typeStr( h->getCaughtType() );
						ho[ "id" ] = idOf( h->getExceptionDecl() );
					}
					ho[ "b" ] = stmt( h->getHandlerBlock() );
					hs.push_back( std::move( ho ) );
				}
				o[ "h" ] = std::move( hs );
				return o;
			}
			if ( auto * e = dyn_cast< Expr >( s ) )
			{
				o[ "k" ] = "expr";
				o[ "e" ] = expr( e );
				return o;
			}
			o[ "k" ] = "unknown";
			o[ "c" ] = s->getStmtClassName();
			return o;
		}

		json::Object var( VarDecl const * v )
		{
			json::Object o;
			o[ "k" ] = "var";
			o[ "id" ] = idOf( v );
			o[ "n" ] = v->getNameAsString();
			o[ "t" ] = typeStr( v->getType() );
			o[ "l" ] = lineOf( v->getLocation() );
			if ( v->isStaticLocal() ) o[ "static" ] = true;
			if ( v->getTLSKind() != VarDecl::TLS_None ) o[ "tls" ] = true;
			if ( auto * rec = v->getType()->getAsCXXRecordDecl() )
				if ( rec->hasDefinition() && !rec->hasTrivialDestructor() )
				{
					if ( auto * d = rec->getDestructor() )
						o[ "dtor" ] = usr( d );
				}
			if ( v->getInit() ) o[ "e" ] = expr( v->getInit() );
			if ( v->getInitStyle() == VarDecl::ListInit ) o[ "brace" ] = true;
			if ( auto * dd = dyn_cast< DecompositionDecl >( v ) )
			{
				json::Array bs;
				for ( auto * b : dd->bindings() )
				{
					json::Object bo;
					bo[ "id" ] = idOf( b );
					bo[ "n" ] = b->getNameAsString();
					if ( auto * be = b->getBinding() )
					{
						auto * ie = be->IgnoreParenImpCasts();
						if ( auto * me = dyn_cast< MemberExpr >( ie ) )
							bo[ "f" ] = me->getMemberDecl()->getNameAsString();
					}
					bs.push_back( std::move( bo ) );
				}
				o[ "binds" ] = std::move( bs );
			}
			return o;
		}

		//------------------------------------------------------------------------------- expressions
		json::Array args( CallExpr const * c, unsigned from = 0u )
		{
			json::Array a;
			for ( unsigned i = from; i < c->getNumArgs(); ++i )
				a.push_back( expr( c->getArg( i ) ) );
			return a;
		}

		void callee( json::Object & o, FunctionDecl const * fd )
		{
			o[ "u" ] = usr( fd );
			o[ "q" ] = qual( fd );
			if ( fd->isNoReturn() ) o[ "noret" ] = true;
			if ( auto * m = dyn_cast< CXXMethodDecl >( fd ) )
			{
				if ( m->isVirtual() ) o[ "virt" ] = true;
				if ( m->isConst() ) o[ "const" ] = true;
				if ( m->isStatic() ) o[ "static" ] = true;
			}
			json::Array pt;
			for ( auto * p : fd->parameters() )
				pt.push_back( typeStr( p->getType() ) );
			o[ "pt" ] = std::move( pt );
			if ( auto * sp = fd->getTemplateSpecializationArgs() )
			{
				json::Array ta;
				for ( auto & x : sp->asArray() )
				{
					if ( x.getKind() == TemplateArgument::Type )
						ta.push_back( typeStr( x.getAsType() ) );
					else if ( x.getKind() == TemplateArgument::Integral )
						ta.push_back( x.getAsIntegral().getExtValue() );
					else
						ta.push_back( "?" );
				}
				o[ "ta" ] = std::move( ta );
			}
		}

		bool fold( Expr const * e, json::Object & o )
		{
			if ( e->isValueDependent() || !e->isPRValue() )
				return false;
			auto t = e->getType();
			if ( !t->isIntegralOrEnumerationType() )
				return false;
			auto * in = e->IgnoreParenImpCasts();
			if ( !( isa< IntegerLiteral >( in ) || isa< CharacterLiteral >( in ) || isa< CXXBoolLiteralExpr >( in )
				|| isa< BinaryOperator >( in ) || isa< UnaryOperator >( in ) || isa< DeclRefExpr >( in )
				|| isa< CallExpr >( in ) || isa< CXXStaticCastExpr >( in ) || isa< CXXFunctionalCastExpr >( in )
				|| isa< CStyleCastExpr >( in ) || isa< UnaryExprOrTypeTraitExpr >( in ) || isa< ConditionalOperator >( in )
				|| isa< ImplicitValueInitExpr >( in ) || isa< CXXScalarValueInitExpr >( in ) || isa< ConstantExpr >( in )
				|| isa< SubstNonTypeTemplateParmExpr >( in ) || isa< TypeTraitExpr >( in ) || isa< SizeOfPackExpr >( in ) || isa< OffsetOfExpr >( in ) || isa< MemberExpr >( in ) ) )
				return false;
			Expr::EvalResult r;
			if ( !e->EvaluateAsInt( r, m_ctx, Expr::SE_NoSideEffects ) )
				return false;
			o[ "k" ] = "int";
			auto v = r.Val.getInt();
			if ( v.isUnsigned() && v.getActiveBits() > 63 )
				o[ "v" ] = int64_t( v.getZExtValue() );
			else
				o[ "v" ] = v.getExtValue();
			o[ "t" ] = typeStr( t );
			if ( auto * dr = dyn_cast< DeclRefExpr >( in ) )
				if ( auto * ec = dyn_cast< EnumConstantDecl >( dr->getDecl() ) )
					o[ "n" ] = ec->getNameAsString();
			return true;
		}

		json::Value expr( Expr const * e )
		{
			if ( !e )
				return nullptr;
			json::Object o;
			if ( fold( e, o ) )
			{
				o[ "l" ] = lineOf( e->getBeginLoc() );
				return o;
			}
			// transparent wrappers
			for ( ;; )
			{
				if ( auto * p = dyn_cast< ParenExpr >( e ) ) e = p->getSubExpr();
				else if ( auto * p = dyn_cast< ExprWithCleanups >( e ) ) e = p->getSubExpr();
				else if ( auto * p = dyn_cast< MaterializeTemporaryExpr >( e ) ) e = p->getSubExpr();
				else if ( auto * p = dyn_cast< CXXBindTemporaryExpr >( e ) ) e = p->getSubExpr();
				else if ( auto * p = dyn_cast< ConstantExpr >( e ) ) e = p->getSubExpr();
				else if ( auto * p = dyn_cast< SubstNonTypeTemplateParmExpr >( e ) ) e = p->getReplacement();
				else if ( auto * p = dyn_cast< CXXDefaultArgExpr >( e ) ) e = p->getExpr();
				else if ( auto * p = dyn_cast< CXXDefaultInitExpr >( e ) ) e = p->getExpr();
				else if ( auto * p = dyn_cast< CXXStdInitializerListExpr >( e ) ) e = p->getSubExpr();
				else if ( auto * p = dyn_cast< ImplicitCastExpr >( e ) )
				{
					auto k = p->getCastKind();
					if ( k == CK_PointerToBoolean || k == CK_IntegralToBoolean || k == CK_FloatingToBoolean || k == CK_MemberPointerToBoolean )
					{
						o[ "k" ] = "tobool";
						o[ "e" ] = expr( p->getSubExpr() );
						o[ "l" ] = lineOf( e->getBeginLoc() );
						return o;
					}
					if ( k == CK_FloatingToIntegral || k == CK_IntegralToFloating )
					{
						o[ "k" ] = "ncast";
						o[ "t" ] = typeStr( p->getType() );
						o[ "e" ] = expr( p->getSubExpr() );
						return o;
					}
					if ( k == CK_IntegralCast && m_ctx.getTypeSize( p->getType() ) < m_ctx.getTypeSize( p->getSubExpr()->getType() ) )
					{
						o[ "k" ] = "trunc";
						o[ "t" ] = typeStr( p->getType() );
						o[ "e" ] = expr( p->getSubExpr() );
						return o;
					}
					if ( k == CK_NullToPointer )
					{
						o[ "k" ] = "null";
						return o;
					}
					e = p->getSubExpr();
				}
				else
					break;
				if ( fold( e, o ) )
				{
					o[ "l" ] = lineOf( e->getBeginLoc() );
					return o;
				}
			}
			o[ "l" ] = lineOf( e->getExprLoc() );

			if ( auto * x = dyn_cast< IntegerLiteral >( e ) )
			{
				o[ "k" ] = "int";
				o[ "v" ] = int64_t( x->getValue().getZExtValue() );
				return o;
			}
			if ( auto * x = dyn_cast< FloatingLiteral >( e ) )
			{
				o[ "k" ] = "float";
				o[ "v" ] = x->getValueAsApproximateDouble();
				return o;
			}
			if ( auto * x = dyn_cast< StringLiteral >( e ) )
			{
				o[ "k" ] = "str";
				o[ "v" ] = x->getCharByteWidth() == 1 ? json::fixUTF8( x->getString() ) : std::string{ "?" };
				return o;
			}
			if ( isa< CXXNullPtrLiteralExpr >( e ) || isa< GNUNullExpr >( e ) ) { o[ "k" ] = "null"; return o; }
			if ( isa< CXXThisExpr >( e ) ) { o[ "k" ] = "this"; return o; }
			if ( auto * x = dyn_cast< DeclRefExpr >( e ) )
			{
				auto * d = x->getDecl();
				if ( auto * fd = dyn_cast< FunctionDecl >( d ) )
				{
					o[ "k" ] = "fref";
					callee( o, fd );
					return o;
				}
				if ( auto * vd = dyn_cast< VarDecl >( d ) )
				{
					if ( !vd->isLocalVarDeclOrParm() )
					{
						o[ "k" ] = "gref";
						o[ "n" ] = qual( vd );
						o[ "t" ] = typeStr( vd->getType() );
						return o;
					}
				}
				o[ "k" ] = "ref";
				o[ "id" ] = idOf( d );
				o[ "n" ] = d->getNameAsString();
				o[ "t" ] = typeStr( d->getType() );
				return o;
			}
			if ( auto * x = dyn_cast< MemberExpr >( e ) )
			{
				auto * md = x->getMemberDecl();
				if ( auto * vd = dyn_cast< VarDecl >( md ) )
				{
					o[ "k" ] = "gref";
					o[ "n" ] = qual( vd );
					o[ "t" ] = typeStr( vd->getType() );
					return o;
				}
				o[ "k" ] = "mem";
				o[ "b" ] = expr( x->getBase() );
				o[ "n" ] = md->getNameAsString();
				if ( md->getNameAsString().empty() ) o[ "anon" ] = true;
				o[ "t" ] = typeStr( md->getType() );
				if ( x->isArrow() ) o[ "arrow" ] = true;
				if ( auto * fd = dyn_cast< FieldDecl >( md ) )
					o[ "rec" ] = qual( fd->getParent() );
				return o;
			}
			if ( auto * x = dyn_cast< CXXOperatorCallExpr >( e ) )
			{
				o[ "k" ] = "op";
				o[ "op" ] = getOperatorSpelling( x->getOperator() );
				if ( auto * fd = x->getDirectCallee() )
				{
					callee( o, fd );
					if ( isa< CXXMethodDecl >( fd ) ) o[ "m" ] = true;
				}
				o[ "a" ] = args( x );
				o[ "t" ] = typeStr( x->getType() );
				if ( x->getNumArgs() ) o[ "bt" ] = typeStr( x->getArg( 0 )->getType() );
				return o;
			}
			if ( auto * x = dyn_cast< CXXMemberCallExpr >( e ) )
			{
				auto * md = x->getMethodDecl();
				o[ "k" ] = "mcall";
				if ( md )
				{
					callee( o, md );
					o[ "b" ] = expr( x->getImplicitObjectArgument() );
					auto bt = x->getImplicitObjectArgument()->getType();
					if ( bt->isPointerType() )
					{
						bt = bt->getPointeeType();
						o[ "bp" ] = true;
					}
					o[ "bt" ] = typeStr( bt );
					if ( auto * me = dyn_cast< MemberExpr >( x->getCallee()->IgnoreParenImpCasts() ) )
						if ( me->hasQualifier() ) o[ "qualified" ] = true;
					if ( isa< CXXConversionDecl >( md ) ) o[ "conv" ] = true;
				}
				else
				{
					o[ "fn" ] = expr( x->getCallee() );
				}
				o[ "a" ] = args( x );
				o[ "t" ] = typeStr( x->getType() );
				return o;
			}
			if ( auto * x = dyn_cast< UserDefinedLiteral >( e ) )
			{
				auto text = Lexer::getSourceText( CharSourceRange::getTokenRange( x->getSourceRange() ), m_ctx.getSourceManager(), m_ctx.getLangOpts() ).str();
				if ( text.size() > 2 && text.substr( text.size() - 2 ) == "ns" && text.find_first_not_of( "0123456789" ) == text.size() - 2 )
				{
					o[ "k" ] = "int";
					o[ "v" ] = (int64_t)std::stoll( text );
					o[ "t" ] = typeStr( x->getType() );
					return o;
				}
			}
			if ( auto * x = dyn_cast< CallExpr >( e ) )
			{
				if ( auto * fd = x->getDirectCallee() )
				{
					o[ "k" ] = "call";
					callee( o, fd );
					if ( auto * me = dyn_cast< MemberExpr >( x->getCallee()->IgnoreParenImpCasts() ) )
						(void)me;
				}
				else
				{
					o[ "k" ] = "icall";
					o[ "fn" ] = expr( x->getCallee() );
				}
				o[ "a" ] = args( x );
				o[ "t" ] = typeStr( x->getType() );
				return o;
			}
			if ( auto * x = dyn_cast< CXXConstructExpr >( e ) )
			{
				auto * cd = x->getConstructor();
				o[ "k" ] = "ctor";
				o[ "u" ] = usr( cd );
				o[ "t" ] = typeStr( x->getType() );
				if ( cd->isCopyConstructor() ) o[ "copy" ] = true;
				if ( cd->isMoveConstructor() ) o[ "move" ] = true;
				if ( cd->isDefaultConstructor() ) o[ "def" ] = true;
				if ( x->isStdInitListInitialization() ) o[ "il" ] = true;
				if ( isa< CXXTemporaryObjectExpr >( x ) ) o[ "tmp" ] = true;
				json::Array a;
				for ( unsigned i = 0; i < x->getNumArgs(); ++i )
					a.push_back( expr( x->getArg( i ) ) );
				o[ "a" ] = std::move( a );
				json::Array pt;
				for ( auto * p : cd->parameters() )
					pt.push_back( typeStr( p->getType() ) );
				o[ "pt" ] = std::move( pt );
				if ( auto * rec = cd->getParent() )
					if ( !rec->hasTrivialDestructor() )
						if ( auto * d = rec->getDestructor() )
							o[ "dtor" ] = usr( d );
				return o;
			}
			if ( auto * x = dyn_cast< CXXInheritedCtorInitExpr >( e ) )
			{
				o[ "k" ] = "ctor";
				o[ "u" ] = usr( x->getConstructor() );
				o[ "t" ] = typeStr( x->getType() );
				o[ "inherited" ] = true;
				o[ "a" ] = json::Array{};
				return o;
			}
			if ( auto * x = dyn_cast< InitListExpr >( e ) )
			{
				if ( x->isTransparent() && x->getNumInits() == 1 )
					return expr( x->getInit( 0 ) );
				auto * sem = x->isSemanticForm() ? x : x->getSemanticForm();
				if ( !sem ) sem = x;
				o[ "k" ] = "ilist";
				o[ "t" ] = typeStr( sem->getType() );
				json::Array names, es;
				if ( auto * rt = sem->getType()->getAs< RecordType >() )
				{
					auto * rd = rt->getDecl();
					if ( rd->isUnion() )
					{
						o[ "union" ] = true;
						if ( auto * f = sem->getInitializedFieldInUnion() )
							names.push_back( f->getNameAsString() );
					}
					else
					{
						if ( auto * cr = dyn_cast< CXXRecordDecl >( rd ) )
							for ( auto & b : cr->bases() )
								names.push_back( "@base:" + typeStr( b.getType() ) );
						for ( auto * f : rd->fields() )
							names.push_back( f->getNameAsString() );
					}
					o[ "rec" ] = true;
				}
				for ( auto * i : sem->inits() )
					es.push_back( expr( i ) );
				o[ "f" ] = std::move( names );
				o[ "e" ] = std::move( es );
				if ( sem->hasArrayFiller() )
				{
					o[ "fill" ] = true;
					if ( auto * at = m_ctx.getAsConstantArrayType( sem->getType() ) )
						o[ "size" ] = int64_t( at->getSize().getZExtValue() );
				}
				return o;
			}
			if ( isa< ImplicitValueInitExpr >( e ) || isa< CXXScalarValueInitExpr >( e ) )
			{
				o[ "k" ] = "zero";
				o[ "t" ] = typeStr( e->getType() );
				return o;
			}
			if ( auto * x = dyn_cast< UnaryOperator >( e ) )
			{
				o[ "k" ] = "un";
				o[ "op" ] = ( x->isPostfix() ? "post" : "" ) + UnaryOperator::getOpcodeStr( x->getOpcode() ).str();
				o[ "e" ] = expr( x->getSubExpr() );
				o[ "t" ] = typeStr( x->getType() );
				return o;
			}
			if ( auto * x = dyn_cast< BinaryOperator >( e ) )
			{
				o[ "k" ] = "bin";
				o[ "op" ] = BinaryOperator::getOpcodeStr( x->getOpcode() ).str();
				o[ "a" ] = expr( x->getLHS() );
				o[ "b" ] = expr( x->getRHS() );
				o[ "t" ] = typeStr( x->getType() );
				return o;
			}
			if ( auto * x = dyn_cast< AbstractConditionalOperator >( e ) )
			{
				o[ "k" ] = "cond";
				o[ "c" ] = expr( x->getCond() );
				o[ "a" ] = expr( x->getTrueExpr() );
				o[ "b" ] = expr( x->getFalseExpr() );
				return o;
			}
			if ( auto * x = dyn_cast< OpaqueValueExpr >( e ) )
				return expr( x->getSourceExpr() );
			if ( auto * x = dyn_cast< ArraySubscriptExpr >( e ) )
			{
				o[ "k" ] = "idx";
				o[ "b" ] = expr( x->getBase() );
				o[ "i" ] = expr( x->getIdx() );
				return o;
			}
			if ( auto * x = dyn_cast< ExplicitCastExpr >( e ) )
			{
				o[ "k" ] = "cast";
				o[ "t" ] = typeStr( x->getType() );
				o[ "ck" ] = x->getCastKindName();
				o[ "e" ] = expr( x->getSubExpr() );
				if ( isa< CXXDynamicCastExpr >( x ) ) o[ "dyn" ] = true;
				return o;
			}
			if ( auto * x = dyn_cast< LambdaExpr >( e ) )
				return lambda( x );
			if ( auto * x = dyn_cast< CXXThrowExpr >( e ) )
			{
				o[ "k" ] = "throw";
				if ( x->getSubExpr() ) o[ "e" ] = expr( x->getSubExpr() );
				return o;
			}
			if ( auto * x = dyn_cast< CXXNewExpr >( e ) )
			{
				o[ "k" ] = "new";
				o[ "t" ] = typeStr( x->getAllocatedType() );
				if ( x->getInitializer() ) o[ "e" ] = expr( x->getInitializer() );
				return o;
			}
			if ( auto * x = dyn_cast< CXXDeleteExpr >( e ) )
			{
				o[ "k" ] = "delete";
				o[ "e" ] = expr( x->getArgument() );
				return o;
			}
			if ( auto * x = dyn_cast< CXXTypeidExpr >( e ) )
			{
				o[ "k" ] = "typeid";
				return o;
			}
			if ( auto * x = dyn_cast< ArrayInitLoopExpr >( e ) )
				return expr( x->getCommonExpr()->getSourceExpr() );
			if ( auto * x = dyn_cast< PredefinedExpr >( e ) )
			{
				o[ "k" ] = "str";
				o[ "v" ] = "?";
				return o;
			}
			if ( auto * x = dyn_cast< CXXNoexceptExpr >( e ) )
			{
				o[ "k" ] = "int";
				o[ "v" ] = int64_t( x->getValue() );
				return o;
			}
			if ( auto * x = dyn_cast< StmtExpr >( e ) )
			{
				o[ "k" ] = "stmtexpr";
				o[ "s" ] = stmt( x->getSubStmt() );
				return o;
			}
			o[ "k" ] = "unknown";
			o[ "c" ] = e->getStmtClassName();
			return o;
		}

		json::Value lambda( LambdaExpr const * x )
		{
			json::Object o;
			o[ "k" ] = "lambda";
			o[ "l" ] = lineOf( x->getBeginLoc() );
			o[ "id" ] = idOf( x->getLambdaClass() );
			json::Array caps;
			auto it = x->capture_init_begin();
			for ( auto & c : x->captures() )
			{
				json::Object co;
				if ( c.capturesThis() )
					co[ "this" ] = true;
				else if ( c.capturesVariable() )
				{
					co[ "id" ] = idOf( c.getCapturedVar() );
					co[ "n" ] = c.getCapturedVar()->getNameAsString();
					co[ "ref" ] = c.getCaptureKind() == LCK_ByRef;
					if ( auto * vd = dyn_cast< VarDecl >( c.getCapturedVar() ) )
						if ( vd->isInitCapture() )
							co[ "init" ] = expr( vd->getInit() );
				}
				caps.push_back( std::move( co ) );
				++it;
			}
			o[ "caps" ] = std::move( caps );
			json::Array specs;
			auto * cls = x->getLambdaClass();
			if ( auto * tmpl = cls->getDependentLambdaCallOperator() )
			{
				for ( auto * sp : tmpl->specializations() )
					if ( sp->getBody() )
						specs.push_back( lambdaBody( sp ) );
			}
			else if ( auto * op = x->getCallOperator() )
			{
				if ( !op->isDependentContext() )
					specs.push_back( lambdaBody( op ) );
			}
			o[ "specs" ] = std::move( specs );
			return o;
		}

		json::Object lambdaBody( FunctionDecl const * fn )
		{
			json::Object o;
			o[ "u" ] = usr( fn );
			o[ "ret" ] = typeStr( fn->getReturnType() );
			json::Array ps;
			for ( auto * p : fn->parameters() )
				ps.push_back( json::Object{ { "id", idOf( p ) }, { "n", p->getNameAsString() }, { "t", typeStr( p->getType() ) } } );
			o[ "params" ] = std::move( ps );
			o[ "body" ] = stmt( fn->getBody() );
			return o;
		}

	private:
		ASTContext & m_ctx;
		json::OStream & m_out;
		PrintingPolicy m_policy;
		std::map< Decl const *, int64_t > m_ids;
	};

	class Consumer
		: public ASTConsumer
	{
	public:
		explicit Consumer( json::OStream & out )
			: m_out{ out }
		{
		}
		void HandleTranslationUnit( ASTContext & ctx )override
		{
			if ( gLostErrors )
				return;
			Extractor v{ ctx, m_out };
			v.TraverseDecl( ctx.getTranslationUnitDecl() );
		}

	private:
		json::OStream & m_out;
	};

	class Action
		: public ASTFrontendAction
	{
	public:
		explicit Action( json::OStream & out )
			: m_out{ out }
		{
		}
		std::unique_ptr< ASTConsumer > CreateASTConsumer( CompilerInstance & ci, llvm::StringRef )override
		{
			return std::make_unique< Consumer >( m_out );
		}

	private:
		json::OStream & m_out;
	};

	class Factory
		: public tooling::FrontendActionFactory
	{
	public:
		explicit Factory( json::OStream & out )
			: m_out{ out }
		{
		}
		std::unique_ptr< FrontendAction > create()override
		{
			return std::make_unique< Action >( m_out );
		}

	private:
		json::OStream & m_out;
	};
}

// crgextract REPO ID_BASE FILE... -- FLAGS...
int main( int argc, char const ** argv )
{
	if ( argc < 4 )
		return 2;
	gRepo = argv[1];
	gNextId = std::stoll( argv[2] );
	std::vector< std::string > files, flags;
	int i = 3;
	for ( ; i < argc && std::string( argv[i] ) != "--"; ++i )
		files.push_back( argv[i] );
	for ( ++i; i < argc; ++i )
		flags.push_back( argv[i] );
	tooling::FixedCompilationDatabase db{ ".", flags };
	tooling::ClangTool tool{ db, files };
	ErrorCollector collector;
	tool.setDiagnosticConsumer( &collector );
	json::OStream out{ llvm::outs() };
	out.arrayBegin();
	Factory f{ out };
	int rc = tool.run( &f );
	out.arrayEnd();
	out.flush();
	return rc;
}
